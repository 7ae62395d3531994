CLAIMED = {
 "C01": "All amount operations proved against their contracts for unbounded integers and all precisions 0..50 from the SSA of the current tree, including the power-of-ten table built at start-up. Trusted: the contracts of math/big, the translation and the solvers. Bounded companion: random amounts against exact arithmetic.",
 "C17": "Post, PostConversion, ofx2coin newTransaction, csv2coin transactionFrom and findAccountForCommodity, gen2coin amtBetween and generatePostings proved for every record, rule outcome, amount and account tree. Trusted: what a CSV field definition extracts (Fields.Value), trim, time.Parse, the ofxgo parser; the walk over an account tree is unrolled by the walk contract of C22 (the callback leaves the tree alone, which is checked). The reading of whole statements and files is decided by the bounded companion.",
 "C06": "Convert/convert/Currencies/includedIn/AddIn proved for every well-formed price graph; termination argued by the growing list of visited commodities, not proved. Trusted: math/big contracts, sort.Slice contract, translation, solvers. Bounded companion: random price graphs.",
 "C02": "parseAmount, MustParseAmount, NewAmountFrac, String, Format, Width and bigLog10 proved exact for all literals and amounts (Width for values below 10^50). Trusted: contracts of strings.Split/Join, strconv.ParseInt, Rat.FloatString (the decimal renderer itself) and its length; Write and the '#' debugging format are in the bounded companion only.",
 "C05": "findPosting, addPosting, deletePosting, MoveTo and drop (posting and transaction) proved for every ordered list and every position; the histories follow because each operation re-establishes the ordered-lists invariant it assumes. Trusted: sort.Find semantics, time comparison contracts, translation, solvers. DropTransactions (the loop over all transactions) and ResolveTransactions are in C03. Bounded companion: random histories against plain lists.",
 "C04": "CheckPostings and Balance proved for every account: the running balance of every posting is the sum of the quantities before and including it, asserted balances are kept, and a warning is printed exactly for the assertions that do not hold after rescaling. Trusted: fmt rendering, math/big contracts, translation, solvers. Which accounts CheckPostings is called on (Load) is exercised by the bounded companion.",
 "C08": "ToRegex, FindAccounts, MustFindAccount and FindAccountOfxId proved for every registry and pattern: an account is returned for a pattern exactly when it is the only name the derived expression matches, or the exact name. Trusted: meaning of regular expression matching (the expression text itself is proved), strings and slices library contracts, translation, solvers. Bounded companion: random registries and patterns against an independent matcher.",
 "C03": "Transaction.ResolveTransactions proved for every list of transactions (loop step clauses per transaction): every posting has a quantity afterwards, quantities given in the source are kept, the native postings of a one-commodity transaction sum to zero exactly, at most one posting is completed and none in a transaction that mixes commodities. Proved for checkPostings=false, the form modify and format call; with true the only additional call is CheckPostings, proved in C04. That every other transaction is refused is decided by the bounded companion. Trusted: math/big, sort and fmt contracts, translation, solvers.",
 "C10": "trim (range of postings), transactions (range of transactions), Day, TagMatcher.Match, NewTagMatcher and the trim methods of the balance and register commands proved for every ordered list, bounds and filters: exactly the entries selected by the definition, in their original order. Trusted: sort.Search semantics, time comparison contracts, meaning of regular expression matching, translation, solvers. Which flag sets which filter is exercised by the bounded companion.",
 "C15": "Posting.IsEqual, Transaction.IsEqual, FindEqual, Includes, Day and MergeDuplicate proved for every list and pair of transactions; MergeDuplicate for a duplicate with at least as many postings, which equality implies. Trusted: math/big and time comparison contracts, translation, solvers. The calls in the importers are exercised by the bounded companion only.",
 "C18": "addTagLine, modifyPosting, modify and Posting.MoveTo proved for every ledger state, condition and change asked. Assumed: the postings of a ledger are distinct objects whose notes do not share storage, and accounts list only postings of their own (which the calls then preserve); regular expressions decide through an uninterpreted match. Bounded companion: whole ledgers through the command, printed results compared with an independent prediction.",
 "C19": "updateTestFile, writeTransactions and the execute methods of format and modify proved: the only replacement of a file is a rename of a temporary file next to it, closed, without a failed write, and with everything written (all loaded transactions; all old lines and the results at their places). Write errors of Transaction.Write, Posting.Write and writeStrings are proved to be reported. Assumed: the contracts of os and bufio (rename is atomic), LoadFile, and the preconditions of ResolveTransactions, modify and Write for a loaded ledger. Bounded companion: real runs with limited file length, failing or dying at random points.",
 "C20": "ParseTags, Includes, Value, With, Keys, KeysAndValues, NewTagMatcher and Match proved for all tags and notes relative to what the tag expression's matches are; that the expression itself denotes the documented syntax is decided by the bounded companion (independent reader, random notes). Trusted: regexp, slices and strings library contracts, translation, solvers.",
 "C11": "cmdBalance.execute, cmdBalance.trim and postings.totals proved for every account tree, set of postings and filter: the report is given for every account of the tree the sum of its selected postings and that sum plus the converted figures of its children, and no amount that existed before is changed. Assumed: account trees are well formed (subtree, places of accounts in a walk), all chains of prices between two commodities give the same (onechain; a direct price needs no assumption), a conversion that fails ends the command. The rendering (print) is decided by the bounded companion. Trusted: math/big, flag and time contracts, translation, solvers.",
 "C16": "The Rules interface method RuleFor and its three implementations (Rule, RuleSet, AccountRules), AccountRulesFor and FindAccountOfxId proved for every list of rules, nested sets and payee: the first match in written order, nil when none. Assumed: rule sets do not contain themselves. Writing and reading rule files again is decided by the bounded companion, which reads every written file with the real reader. Trusted: meaning of regular expression matching, translation, solvers.",
 "C21": "ShortenAccountName proved for every name and width relative to the library contracts of strings.Split and Join (lengths and separators): unchanged when it fits, parts are prefixes in order, the result fits unless every part is one character, no panic. Lengths are bytes, as in the code. Bounded companion: random names and widths against an independent check.",
 "C22": "Depth, IsClosed, WithChildrenDo and FirstWithChildrenDo proved for every finite account tree: the recorded calls are the preorder (postorder) listing of the tree. Assumed: the callback leaves the tree alone. Bounded companion: random trees.",
 "C27": "bmoReader.Read and newBMOReader proved for every source, every buffer size and every state of the reader: the bytes passed on are those of the next line that is not dropped, with the blank line before <OFX> where it belongs, and it ends only when the source ends. Trusted: the contract of bufio.Reader.ReadBytes (lines of the source in order; this hides the chunking of the source, which the bounded companion varies), bytes.Equal, translation, solvers.",
 "C12": "The four period reducers (week, month, quarter, year), the payee and tag reducers and timeTotals.add proved for every posting and every sequence of totals: a posting is added to the period that contains its date, to its category only, exactly, or starts a new period; periods ascend. Trusted: the calendar axioms (UTC; days, months and weeks as integers), contracts of time.Time, math/big, translation, solvers. Which flag selects which reducer and the text of a tag category are exercised by the bounded companion.",
 "C13": "timeTotal.Copy, AddIn, Commodity and timeTotals.newTotal, Commodity, makeCumulative proved for every total and sequence: sums by category, storage of its own, running totals. mergeTotals and top (which rest on them) are decided by the bounded companion: random sequences, categories and limits against an independent calculation. Trusted: math/big contracts, translation, solvers.",
 "C24": "The generator closures of weekly and monthly proved for every captured interval, count and list of days (weekly: sorted weekdays, as the command passes them) and every outcome of the random choice: in range, ascending, on requested days, weeks and months stepped by the interval. How many dates each week or month gets is decided by the bounded companion. Trusted: calendar axioms (UTC), rand.Intn, time and sort contracts, translation, solvers.",
 "C09": "parseDate, mustParseDate, MustParseDate and Date.Set proved for every combination of fields and every current date, with the two-digit year and missing year rules as lemmas; the initialisers establish the date expression. Trusted: the calendar axioms (UTC, unbounded years), what the groups of the date expression match (rex.Match as a function of expression and text), strconv.Atoi, translation, solvers. That the expression denotes the documented spellings is decided by the bounded companion (independent reader and calendar).",
 "C26": "Load, LoadFile, NewParser, Parser.Scan, Parser.Next, Include.Files and the six parse functions of items proved for every sequence of lines: every line is blank, a comment, or belongs to exactly one item of the kind its beginning names; every item is registered once, at the end of its list or under its identifier, symbol or full name, with nothing else changed; every file of an include is loaded once, in order, before the next line; nothing stops before the end of the file without an error. Trusted: the contracts of bufio.Scanner (lines in order), bytes and regexp (what an expression matches is an uninterpreted function of expression and text), path/filepath, os.Open. Assumed: a path of an include is not empty, parseAmount is called with a registered commodity. What postings, notes and attributes of an item say is decided by the bounded companion, as is the text of a test.",
 "C07": "ResolveAccounts, adopt, accountFromName, parentAndName, ParentName, MustFindCommodity proved for every set of registered accounts and every order in which the map gives them: declared accounts stay registered as they are, every ancestor is there, every account but the root has the parent its name says and is listed once there and nowhere else, children in name order, a parent's name is shorter (no account above itself), each account in its own commodity; refused only for an unknown commodity, adopt never refuses. ResolveTransactions: each posting goes to the account it names and is listed there. Assumed: accounts have not been linked before, are registered under their full names, and when adopt walks the tree the walk lists it (preorder as a function exists, which follows from the shorter names). That no further accounts are created, and the attributes as read from text, are checked by the bounded companion.",
 "C14": "Printing proved for every item: Write of transactions, postings, amounts, prices, commodities and accounts writes exactly the stated text (date, code, description, account, number with the commodity's decimals, assertion, first note on the line or not, the other notes below in order), reports every failed write, writes nothing else. Reading proved for every sequence of lines: parseTransaction makes one posting for each posting line with the account, quantity and assertion its groups say, every note goes to the transaction or the posting before it, in order, none is lost and none added; parseAccount, parseCommodity and parsePrice take every attribute from its line. Trusted: regexp (what a group matches is an uninterpreted function of expression and text), fmt. Assumed: a line of an account or commodity has at most one attribute (the expressions' alternatives). That the groups of a printed line are the texts printed there (the expressions themselves) is decided by the bounded companion, which prints, reads, compares and prints again random items.",
}
NOT_CLAIMED = {}
