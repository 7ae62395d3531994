#!/usr/bin/env python3
# Writes properties.jsonl and MANIFEST.json from the table below.
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []
def prop(id, title, statement, over, qtext, why, files, *mech, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over.split(","), "text": qtext},
              "why_tests_cant": why, "anchors": a})

prop("C01", "Amount arithmetic is exact and never disturbs its operands",
 "Adding, multiplying, negating, copying and comparing money amounts gives the exact decimal result, with digits beyond the result commodity's precision dropped toward zero, at any magnitude. Operands keep their values and no result shares storage with an operand; only the receiver of an in-place addition changes. Ordering and magnitude comparisons agree with the values after rescaling the second operand to the first one's precision.",
 "inputs", "every pair of amounts of any size and any supported precision (0 to 50 decimal places), same or different commodities",
 "Tests evaluate a dozen small constants with 0 to 3 decimals; the claim is over unbounded integers and all precision pairs.",
 ["amount.go", "pow10.go"],
 ("rescaling between precisions", "amount.go adjustedTo"), ("in-place and pure operations", "amount.go AddIn, Times, Negated, Copy, Magnitude"),
 ("comparisons", "amount.go Cmp, IsEqual, IsLessThan, IsMoreThan, CmpMagnitude"), ("power of ten table", "pow10.go init, bigPow10"))

prop("C02", "Amount text is read and printed exactly",
 "A decimal literal reads as its exact value in the commodity's precision, excess decimals dropped toward zero for both signs; anything else, and a literal whose digits do not fit 64 bits, is rejected. An amount prints as an optional minus sign, the integer digits and exactly the commodity's number of decimals, so printing and reading back gives the same value. The width reported for column layout equals the length of the printed text.",
 "inputs", "every literal and every amount of any supported precision and magnitude",
 "Tests parse and print a handful of literals of 2 or 3 decimals; negative fractions below one, excess decimals, and widths at powers of ten are outside them.",
 ["amount.go", "pow10.go"],
 ("literal to value", "amount.go parseAmount, NewAmountFrac"), ("value to text", "amount.go String, Format, Write"), ("column width", "amount.go Width; pow10.go bigLog10"))

prop("C03", "Every resolved transaction balances and the elided posting absorbs the rest",
 "After a ledger is resolved, the postings of every transaction have quantities, and in a transaction whose postings' accounts share one commodity they sum to exactly zero. A single posting without a quantity receives the exact negated sum of the others in their commodity; explicit quantities are never altered. A single-commodity transaction that does not balance or leaves more than one quantity out, or one that leaves any out among accounts of mixed commodities, is rejected rather than silently completed.",
 "inputs", "every set of transactions with any number of postings, any quantities, elided or not, in one or several commodities",
 "Tests resolve a few two and three posting transactions; the claim covers every posting count, sign, position of the elided posting and commodity mix.",
 ["coin.go"],
 ("balancing and elision", "coin.go ResolveTransactions"))

prop("C04", "Running balances are exact and wrong balance assertions are reported",
 "After resolution every posting carries the balance of its account just after it, which is the balance after the previous posting plus this posting's quantity, starting from zero. An asserted balance is kept and never changes the computed one: assertions that disagree with the computed balance, after rescaling to the account's precision, are reported with the location of the posting's transaction, and no agreeing assertion is reported. The account's balance is the sum of all its postings.",
 "inputs,histories", "every account and every sequence of postings with any pattern of assertions",
 "Tests check a few short accounts; the claim is an induction over posting sequences of any length.",
 ["account.go", "coin.go"],
 ("running balance", "account.go CheckPostings"), ("account balance", "account.go Balance"))

prop("C05", "An account's postings stay in date order, each exactly once",
 "Adding a posting to an account inserts it exactly once at a place that keeps the postings in date order, after those of the same date; removing or moving one removes exactly that posting. The relative order of all other postings is kept, and nothing is lost or duplicated. Moving a posting leaves it in the new account only, and dropping a transaction removes its postings from their accounts.",
 "inputs,histories", "every ordered posting list and every posting, with any number of equal dates, and every sequence of moves and drops",
 "Tests add and delete a few postings on distinct days; the binary search and the run of equal dates matter at every position and length.",
 ["account.go", "posting.go", "transaction.go"],
 ("locating a posting", "account.go findPosting"), ("insertion and removal", "account.go addPosting, deletePosting"), ("moving and dropping", "posting.go MoveTo, drop; transaction.go drop"))

prop("C06", "Conversion follows latest prices and ends in the requested commodity",
 "Converting an amount to another commodity yields an amount of that commodity, computed from the latest price of each step, or an error when no chain of prices connects the two. A direct price is used when there is one; conversion terminates also on cyclic prices, never alters its input, and does not depend on internal iteration order. Adding an amount of another commodity adds exactly its conversion, and changes nothing when conversion fails.",
 "inputs,configurations", "every price graph, including cyclic and disconnected ones, and every amount",
 "Tests convert along one direct and one indirect chain; graphs with cycles, dead ends and several routes are not sampled.",
 ["commodity.go", "amount.go", "price.go"],
 ("search through prices", "commodity.go Convert, convert, includedIn, Currencies"), ("addition with conversion", "amount.go AddIn"))

prop("C07", "Accounts form a tree consistent with their full names",
 "After resolution every account that appears, except the root, has its parent account present and is listed exactly once among its parent's children; its full name is the parent's full name joined with its own name, or its own name alone for the accounts directly below the root. Every posting is attached to the account it names, children are in name order, and no account is its own ancestor. Missing intermediate accounts are created; explicitly declared ones keep their own attributes.",
 "inputs,histories", "every set of declared account names and posting account references, in any order of declaration",
 "Tests resolve a few fixed hierarchies; declaration orders, missing parents at several levels and shared prefixes are not enumerated.",
 ["account.go", "coin.go"],
 ("adopting children", "account.go adopt"), ("building the hierarchy", "coin.go ResolveAccounts"), ("splitting names", "account.go parentAndName, accountFromName"))

prop("C08", "An account pattern selects exactly one account or is refused",
 "Looking up an account by a pattern returns the account with exactly that full name if there is one, otherwise the single account the pattern matches, or of several matches the one that is an ancestor of all the others. When the pattern matches no account, or several without such an ancestor, it is refused and no account is silently chosen. Listing accounts by pattern returns all and only the matching ones, and an empty pattern selects all.",
 "inputs,configurations", "every set of accounts and every pattern",
 "Tests look up a few patterns against one set of accounts; ambiguity depends on the whole set.",
 ["coin.go"],
 ("unique lookup", "coin.go MustFindAccount"), ("listing", "coin.go FindAccounts"), ("pattern language", "coin.go ToRegex"))

prop("C09", "Written dates denote the intended day, relative to today where abbreviated",
 "A full date denotes that day at noon UTC; a two-digit year denotes the year within fifty years of the current one. A date without a year denotes the nearest such month to the current month (at most six months away), and a date without a day denotes the first of the month. Months and days beyond the end of a year or month carry over into the next. Offsets of days, weeks, months or years move the date by exactly that amount, and command line text that is not entirely a date is refused.",
 "inputs,configurations", "every date spelling, and every current date it may be interpreted on",
 "Tests fix the current date to a couple of values; the wrap around the year end depends on the pair of current and written month.",
 ["date.go"],
 ("interpretation", "date.go parseDate"), ("command line dates", "date.go Set"))

prop("C10", "Date ranges and filters select exactly the matching entries",
 "Selecting by a begin and an end date yields exactly the entries dated on or after begin and before end, in their original order, where an unset bound does not restrict. Selecting a single day yields exactly that day's transactions. A payee or tag filter keeps exactly the postings that match it, or exactly those that do not when the payee filter is inverted, with order unchanged and consistently for every account shown.",
 "inputs,configurations", "every date-ordered list, every pair of bounds including empty and reversed ranges, every filter",
 "Tests run a few ranges on one ledger; boundaries falling on, between, before or after equal-dated entries are a product of cases.",
 ["cmd/coin/utils.go", "cmd/coin/stats.go", "cmd/coin/balance.go", "cmd/coin/register.go", "transaction.go", "tags.go"],
 ("range of postings", "cmd/coin/utils.go trim"), ("range of transactions", "cmd/coin/stats.go transactions"), ("one day", "transaction.go Day"), ("filters", "cmd/coin/balance.go trim; cmd/coin/register.go trim; tags.go Match"))

prop("C11", "Balance report: each account's total is its own postings plus its children",
 "For every account the report shows the sum of its selected postings, and a cumulative figure equal to that sum plus the cumulative figures of its direct children, converted to the account's commodity when necessary. Every selected posting therefore counts exactly once in each of its ancestors, and the same figure is obtained in any order of accounts. Producing the report does not change any posting.",
 "inputs,configurations", "every account tree and every assignment of postings to accounts",
 "Tests compare the printed report of one ledger; conservation is a statement over all trees.",
 ["cmd/coin/balance.go", "cmd/coin/postings.go"],
 ("totals and roll up", "cmd/coin/balance.go execute"), ("sum of postings", "cmd/coin/postings.go totals"))

prop("C12", "Aggregation by period counts each posting once in the right period",
 "When postings are aggregated by week, month, quarter or year, every posting is added to exactly one period, the one that contains its date, and under its own category; a period's figure is the exact sum of its postings. The periods shown are exactly those a posting falls into, each once, in ascending order. The grand total equals the sum of all postings.",
 "inputs", "every date-ordered sequence of postings and every period length",
 "Tests aggregate a few months of one account; period boundaries such as ISO weeks across the year end and long gaps are not covered.",
 ["cmd/coin/totals.go", "cmd/coin/register.go"],
 ("accumulating", "cmd/coin/totals.go timeTotals.add, newTotal"), ("period arithmetic", "cmd/coin/totals.go reducers"))

prop("C13", "Merging totals and keeping only the largest conserves the amounts",
 "Merging two sequences of period totals gives, for every period of either and every category, exactly the sum of both, in ascending order with no period lost or repeated, and leaves the merged-in sequence unchanged. Limiting the report to the n largest accounts (n not negative) keeps n of those with the largest magnitude and folds all remaining ones into one remainder, so that the overall total of every period is unchanged. A cumulative report shows for every period the sum of all periods up to it.",
 "inputs", "every pair of sequences with any overlap, every set of accounts and every n",
 "Tests merge two short fixed sequences; interleavings, empty sequences and counts around the limit are not enumerated.",
 ["cmd/coin/totals.go", "cmd/coin/register.go"],
 ("merging", "cmd/coin/totals.go mergeTotals, timeTotal.AddIn, Copy"), ("largest accounts", "cmd/coin/totals.go top"), ("running totals", "cmd/coin/totals.go makeCumulative"))

prop("C14", "Printed ledger items read back as the same items",
 "Any transaction, posting, price, commodity or account that is printed in the native format is read back as an item with the same dates, codes, descriptions, notes, accounts, quantities, commodities, balance assertions, symbols, closing dates and import identifiers, as long as its numbers have no more digits than can be read (64 bits). Printing the re-read item gives the same text again.",
 "inputs", "every item a ledger can contain",
 "Tests round-trip a handful of fixed items; long descriptions, notes, assertions and precisions combine freely.",
 ["transaction.go", "posting.go", "price.go", "commodity.go", "account.go", "parser.go"],
 ("printing", "Write methods of the item types"), ("reading", "parser.go Next and the parse functions of the item types"))

prop("C15", "Duplicate detection finds an equal transaction exactly when one exists",
 "Two transactions are considered equal exactly when they have the same posting date, the same code, the same number of postings, and the postings at each position have the same account and quantity. Searching a list returns an equal transaction from that list when one exists and nothing otherwise. Merging a duplicate keeps the transaction's own postings and balances, takes over only the balances and balance assertions its postings lack, and changes no quantity and nothing in the duplicate.",
 "inputs", "every pair of transactions and every date-ordered list",
 "Tests compare a few pairs; repeated accounts and quantities, precisions, and lists of any length are not covered.",
 ["transaction.go", "posting.go"],
 ("equality", "transaction.go IsEqual; posting.go IsEqual"), ("search", "transaction.go FindEqual, Includes, Day"), ("merging", "transaction.go MergeDuplicate"))

prop("C16", "The first matching import rule decides, and rules survive writing",
 "The rule chosen for a payee is the first one in written order that matches, looking into referenced rule sets at their place in the order, and none when nothing matches. Accounts are found by their import identifier. Rules that are written out and read again select the same rule for every payee and keep their notes.",
 "inputs,configurations", "every list of rules and nested rule sets and every payee",
 "Tests read one sample rule file; first-match order with nesting quantifies over all rule lists.",
 ["rules.go"],
 ("selection", "rules.go RuleFor of account rules, rule sets and rules"), ("reading and writing", "rules.go ReadRules, ScanRules, Write"))

prop("C17", "Imported and generated transactions balance",
 "Every transaction produced by an importer or generator from one source record has postings that sum to zero per commodity, or in a conversion, carry the exact amounts given, with the source amount booked once and with its sign to the source account; in a trade read from a CSV row the source account gets the traded quantity instead, with the sign opposite to the amount's. The posting date, payee and asserted balance of the record are carried over unchanged. Each produced posting refers to its transaction and is listed in it exactly once.",
 "inputs", "every source record and every rule outcome",
 "Tests import two or three sample records.",
 ["transaction.go", "cmd/ofx2coin/main.go", "cmd/csv2coin/main.go", "cmd/gen2coin/rule.go"],
 ("posting pairs", "transaction.go Post, PostConversion"), ("OFX record", "cmd/ofx2coin/main.go newTransaction"), ("CSV record", "cmd/csv2coin/main.go transactionFrom"))

prop("C18", "Modify changes every selected posting and nothing else",
 "The modify command considers exactly the transactions that match the payee and transaction tag conditions, as far as given. In these it moves to the requested account, and adds the requested posting tag to, exactly the postings that are on the given account or match the given posting tag condition; a requested transaction tag is added to each of these transactions, or with an account given, to those with a posting on that account. Everything else, including all dates, payees and quantities and the order of postings, stays as it was, and a transaction is counted as updated exactly when one of these changes was applied to it.",
 "inputs,configurations", "every ledger and every combination of conditions and changes",
 "Tests run a few flag combinations on one ledger; several matching postings in one transaction and combined conditions multiply.",
 ["cmd/coin/modify.go"],
 ("selection and change", "cmd/coin/modify.go modify, modifyPosting"), ("notes and tags", "cmd/coin/modify.go addTagLine"))

prop("C19", "Rewriting a file in place never loses its contents",
 "When a command rewrites a ledger or test file in place, at every moment the disk holds either the complete old contents or the complete new contents under the original or a clearly related name. The original is replaced only after the new contents have been written completely and without error; on any write error the original stays. No other file is removed.",
 "crash_points,fault_sequences", "every point at which the program may stop or any file operation may fail",
 "Tests never interrupt the command and never make a file operation fail.",
 ["cmd/coin/format.go", "cmd/coin/modify.go", "cmd/coin/test.go"],
 ("replacing files", "cmd/coin/format.go, cmd/coin/modify.go and cmd/coin/test.go in-place branches"))

prop("C20", "Tags are read, combined and matched as written",
 "Every #key and #key: value in a note gives exactly that key and trimmed value, notes without tags give none, and later occurrences of a key win. Combining the tags of a transaction and a posting keeps all keys, the posting's value winning, and changes neither. Listing keys yields each exactly once in sorted order, and a tag expression matches a set of tags exactly when some tag in it has a matching key and, where given, a matching value, or with a leading exclamation mark, when some tag in it does not.",
 "inputs", "every note text, every pair of tag sets and every tag expression",
 "Tests parse a table of a few notes; separators, single character values, and set combinations are open ended.",
 ["tags.go"],
 ("reading", "tags.go ParseTags"), ("combining and listing", "tags.go With, Keys, KeysAndValues, Includes, Value"), ("matching", "tags.go NewTagMatcher, Match"))

prop("C21", "Shortened account names fit and keep their structure",
 "An account name that already fits the requested width is shown unchanged. Otherwise the shortened name is made of prefixes of the original parts, joined in the same order by the same separators, with no part added or removed. The result never exceeds the requested width unless every part is already cut to a single character, and shortening never fails for any name and any width.",
 "inputs", "every account name and every width, however small",
 "Tests shorten five fixed names; the interaction of part lengths and width is unbounded.",
 ["account.go"],
 ("shortening", "account.go ShortenAccountName"))

prop("C22", "Walking the account tree visits every account once, parents in order",
 "A walk from an account visits that account and all its descendants exactly once, parents before children in one form and children before parents in the other, siblings in order. The depth of an account is one for a top account and one more than its parent's otherwise. An account counts as closed exactly when a closing date was given for it or for one of its ancestors.",
 "inputs", "every account tree",
 "Tests walk one small tree.",
 ["account.go"],
 ("walks", "account.go WithChildrenDo, FirstWithChildrenDo"), ("depth and closing", "account.go Depth, IsClosed"))

prop("C24", "Generated sample dates stay in range, ordered, and on the requested days",
 "Generated weekly dates lie within the requested range, in ascending order, fall only on the requested weekdays, and weeks are stepped by the requested interval. Generated monthly dates lie in the range, ascending, only on the requested days of the month, and months are stepped by the requested interval. No week or month gets more than the requested number of dates, and when that number covers all requested days none that is before the end of the range is missing. The generators terminate for every range, including an empty one.",
 "inputs,configurations", "every range, interval, count and set of days",
 "Tests check two or three fixed ranges.",
 ["cmd/gen2coin/dates.go"],
 ("weekly", "cmd/gen2coin/dates.go weekly"), ("monthly", "cmd/gen2coin/dates.go monthly"))

prop("C26", "Loading registers every item of a file exactly once",
 "Loading a ledger file puts every commodity, account, price, transaction and test it contains into the corresponding collection exactly once, in file order, with included files loaded at the place of the include. Commodities and accounts are findable by their identifier, symbol and full name afterwards. Comments and blank lines are skipped, and an unknown item or a malformed first line of an item stops loading with an error instead of being skipped.",
 "inputs", "every sequence of items of every kind",
 "Tests load one or two small ledgers.",
 ["coin.go", "parser.go"],
 ("dispatch", "coin.go Load; parser.go Next"))

prop("C27", "The bank file filter passes everything through except its documented corrections",
 "Reading a bank export through the compatibility filter yields the same lines in the same order, except that blank lines before the header are dropped, one blank line is put before the first <OFX> line if the header before it has none, and the two known invalid BANKMSGSET lines after it are dropped. This holds for every size of the caller's buffer and however the underlying reader delivers its data, and a last line without a line end is kept. Reading ends exactly when the source ends.",
 "inputs,schedules", "every input text, every sequence of buffer sizes and read chunk sizes",
 "Tests read one sample through one buffer size.",
 ["cmd/ofx2coin/bmo.go"],
 ("filtering reader", "cmd/ofx2coin/bmo.go newBMOReader, Read"))

# ---- what is claimed: id -> level note
exec(open(os.path.join(ROOT, "tools", "claims.py")).read())

TECH = "deductive verification: contracts on the Go code (SSA of /repo), obligations discharged by z3/cvc5; bounded replay on the real code supplies failing inputs"

def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P: f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p in P:
        i = p["id"]
        if i in CLAIMED:
            checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py " + i,
                           "technique": TECH, "level": "proof", "level_note": CLAIMED[i]})
        else:
            na.append({"property": i, "reason": NOT_CLAIMED.get(i, "not built yet")})
    m = {"version": 1, "setup_cmd": "sh tools/setup.sh", "checks": checks, "not_applicable": na}
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
    import jsonschema
    for p in P: jsonschema.validate(p, json.load(open("/root/.vp/PROPERTIES.schema.json")))
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
main()
