PATHS='path-sensitive (trace-partitioned) dataflow over SSA with value numbering'
P=[]
NA=[]
def prop(**k): P.append(k)
def na(**k): NA.append(k)

prop(id='C01',title='Transactions that do not balance are never accepted',
 statement='A ledger, import or generated set of records in which the postings of some transaction, the last one included, do not sum to exactly zero in every currency is never turned into a book. The user gets an error instead, and no amount of any posting is left out of or added twice to that sum.',
 over=['inputs','histories'],quant='every sequence of transactions and postings given to the book builder, by any of its users',
 tests='The tests never build a book from an unbalanced sequence; the guarantee is over all sequences, currencies and positions of the failing transaction.',
 files=['book/builder.go','cmd/app/app.go','cmd/generate/starlark.go','cmd/importer/starlark.go'],
 mech=[('balance check before the next transaction and before the book is built','book.Builder.NewTransaction, Build, BuildBook'),('running balance per currency','book.Builder.AddPosting')],
 tech=PATHS+'; loop scans checked by inductive flags',
 note='All control-flow paths of the builder and of every function that takes a book from it, for any input; the sums are compared as polynomials over exact rationals. Assumes no other code changes the amounts through shared pointers between the calls.')

prop(id='C10',title='Compaction loses no value: merging, dropping zero, grouping, balances',
 statement='Listing the transactions of a book gives its postings ordered by date, payee, account and currency, grouped into one transaction per date and payee. Two postings become one only if they agree in date, payee, account and currency, and the result carries the sum; a posting disappears only if its amount is exactly zero. The balance shown with each posting is the sum of all amounts of the same account and currency up to and including it.',
 over=['inputs'],quant='every list of postings a book can hold',
 tests='Tests compare a few fixed books; the merge, drop, grouping and running-sum rules must hold for any combination of equal and different keys.',
 files=['book/book_compact.go','book/posting.go','book/book.go'],
 mech=[('sort, merge, zero removal, regrouping and running balances','book.Book.Transactions'),('posting order','book.Posting order')],
 tech=PATHS+'; inductive loop obligations on in-place filters',
 note='Every iteration of every loop reached when the transactions are listed, from an arbitrary state of the loop; the order given to the sort is decided path by path. Assumes the sort routine of the library sorts by the order it is given.')

prop(id='C08',title='Moves and depreciation add only balanced postings to matching accounts',
 statement='Moving a share of an account, or depreciating it over periods, leaves every existing posting as it is and adds new ones only for postings whose account matches the expression given. For each of these the new postings sum to exactly zero in its currency, go to the account the expression and replacement give, and carry the exact share asked for: the factor given, or one full move out and equal parts of one over the number of periods, each period later than the one before. An invalid expression or number of periods (none or fewer) is an error and changes nothing; nothing else is an error.',
 over=['inputs'],quant='every book, regular expression, replacement, factor and number of periods',
 tests='No test runs these operations; exactness has to hold for every factor and number of periods.',
 files=['book/book.go','book/posting.go'],
 mech=[('move of a share','book.Book.AdjustPost'),('depreciation','book.Book.Depreciate')],
 tech=PATHS+'; the elements appended per iteration are summed as polynomials over exact rationals, inner loops by their trip count',
 note='All paths through both operations for any book; sums are symbolic, exact and for any number of periods. The regular expression routines of the library are uninterpreted functions of their arguments.')

prop(id='C09',title='Date ranges keep exactly the transactions in range, whole',
 statement='Restricting a book to since a date or as of a date keeps every transaction dated on or after, respectively strictly before, that date, drops all others, and changes nothing in those kept. A register restricted to a range shows the entries on or after the first date and strictly before the second, an absent date being no limit. A text that is not a date is an error everywhere; a register is not refused for dates that are valid or not given.',
 over=['inputs'],quant='every book, register, begin date and end date',
 tests='No test filters a book or a register; boundary dates and empty ranges matter.',
 files=['book/book_utils.go','book/book.go','book/registry.go','cmd/app/book_op.go','script/book_op.go','cmd/register/register.go'],
 mech=[('whole-transaction filter','book.Book.FilterByDateSince, FilterByDateAsof'),('register range','book.RegistryReport.FilterByDate'),('uses','cmd/app BookOps, script book operations, register command')],
 tech=PATHS+'; every iteration of the selecting loops is compared with the date condition',
 note='All paths of the filters and of every caller, with an arbitrary loop state. Assumes a book is ordered by date when a register is extracted (decided by C10) and that no date is negative.')

prop(id='C04',title='Transactions stay apart and postings belong to their own transaction',
 statement='Two transactions of the same date and payee never run into one: the second one gets a payee of its own, made from the one given, that no transaction of that date had before, and a payee not yet used on that date is kept as given. Every posting has the date, payee and note of the transaction it was entered under, and the account, currency and note entered for it.',
 over=['inputs','histories'],quant='every sequence of transactions and postings entered, with any dates and payees',
 tests='No test enters two transactions of the same date and payee; the name chosen must be new after any history.',
 files=['book/builder.go'],
 mech=[('a key of date and payee noted for each transaction, a suffix until it is new','book.Builder.NewTransaction'),('postings get the current transaction','book.Builder.AddPosting')],
 tech=PATHS+'; the key noted is shown inductively to be the one of the date and payee used, and injective',
 note='All paths, after any history of the builder. Termination of the search for a new payee is not decided.')

prop(id='C12',title='Renaming changes only matching names, everywhere they occur',
 statement='Renaming accounts by a regular expression gives every posting whose account matches the account with each match replaced, and leaves every other posting and everything but the account as it was. Renaming currencies does the same to the currency of every posting and also to both currencies of every price and to the number of decimals noted for a currency. An invalid expression is an error and changes nothing; nothing else is an error.',
 over=['inputs'],quant='every book, regular expression and replacement',
 tests='Tests rename a few accounts of a fixed book; prices, decimals and non-matching names are not looked at.',
 files=['book/book.go','book/posting.go','book/price.go'],
 mech=[('renaming of accounts','book.Book.RegexAccounts'),('renaming of currencies in postings, prices and decimals','book.Book.RegexCCY')],
 tech=PATHS+'; effect of each loop iteration on every element compared with the renamed one',
 note='All paths and loop iterations for any book. The regular expression routines of the library are uninterpreted functions of their arguments; two currencies renamed to the same one are merged in no particular way by this check.')

prop(id='C13',title='Importing or generating again leaves out just what the ledger already has',
 statement='When records are imported or generated and duplicates are to be removed, a transaction is left out exactly if the ledger has one of the same date and payee; every other one is shown, whole and unchanged. Without that request all are shown, and with it the comparison is with the ledger as it was loaded.',
 over=['inputs'],quant='every ledger and every set of imported or generated transactions',
 tests='No test removes duplicates; the walk through two ordered lists must be right for every interleaving of their dates and payees.',
 files=['book/book_dedup.go','book/book_utils.go','cmd/importer/importer.go','cmd/generate/generate.go'],
 mech=[('walk through both ordered lists of transactions','book.Book.RemoveDuplicatesOf'),('uses','the import and generate commands')],
 tech=PATHS+'; the position in the ordered list is shown inductively to pass only smaller transactions',
 note='All paths and iterations, for any two books. Rests on both lists being ordered by date and payee (decided by C10).')

prop(id='C07',title='Grouping by period dates every posting to the first day of its own period',
 statement='Grouping by year, quarter or month moves every posting to the first day of the year, quarter or month its own date lies in and changes nothing else about it; grouping by nothing leaves the dates, grouping everything together dates every posting to today. A period that is not known is an error.',
 over=['inputs'],quant='every book, date and period',
 tests='Tests look at a handful of dates; the first day has to be right for every date of every year, month and quarter.',
 files=['book/date.go','book/book_utils.go'],
 mech=[('first day of a period','book.Date.Floor'),('grouping','book.Book.SplitBy')],
 tech=PATHS+'; the date arithmetic is normalised to quotients and compared as polynomials, with intervals',
 note='All paths for every date of four-digit years; integer division is normalised exactly. Which calendar dates are valid is not part of it.')

prop(id='C15',title='Prices: exact, else interpolated by days, else nearest, inverse if needed',
 statement='The rate between two currencies at a date is the price of that date if there is one, between two prices the value on the straight line between the two nearest in days, and before the first or after the last the nearest one. If there are only prices the other way round it is one over that rate, between a currency and itself it is 1, and without any price 1 and known to be no price. Every price given is kept with its date and pair of currencies, in the order of dates.',
 over=['inputs'],quant='every list of prices, pair of currencies and date',
 tests='Tests look up a few prices of a fixed list; the search must end at the right neighbours for every list and every date.',
 files=['book/price.go','book/builder.go','book/book_utils.go','book/date.go'],
 mech=[('search and interpolation','book.PriceList.GetPrice, book.Book.GetPrice'),('keeping and ordering prices','book.Builder.AddPrice, book.priceBookBuilder.build')],
 tech=PATHS+'; the search loop is shown inductively to keep the date between its bounds, the rate compared as a rational function',
 note='All paths of the look-up, for lists of any length; the bisection is decided by its invariant. Two prices of the same date and pair are used in no particular order. How a date is turned into a number of days is not decided here.')

prop(id='C14',title='Conversion takes every amount at the rate of its own date and currency',
 statement='When a report or a register is asked to convert, the amount of every posting becomes that amount times the rate from its own currency to the base currency at its own date (in a report, the date it is grouped under), and its currency the base currency; nothing else about it changes and it happens once, before anything is summed or shown. Without being asked to, no amount is changed. Asked to convert without a base currency is an error.',
 over=['inputs'],quant='every ledger, list of prices, base currency and setting of the report or register',
 tests='No test converts a book; a posting left out, converted twice, or at the rate of another date shows only with particular ledgers.',
 files=['book/book.go','cmd/reports/report.go','cmd/register/register.go'],
 mech=[('conversion of every posting','book.Book.MapAmount'),('the rate asked for','the report and register commands')],
 tech=PATHS+'; effect of an arbitrary iteration over the postings compared as a polynomial with the rate looked up',
 note='All paths of both commands with the conversion gone into; the look-up of a rate is an uninterpreted function of its arguments here (decided by C15). Assumes no two postings share the memory of an amount.')

prop(id='C24',title='Operations and macros are carried out as named, in order, before showing',
 statement='The operations given to a report or register are all carried out on the loaded ledger, in the order given and before anything is listed: a macro by each of its operations in order, any other by just the one operation its name says, with the parts of its text in their places. An operation or part that is not valid, or a macro within itself, is an error, and nothing else is unless the operation itself fails. A report is then grouped, summed and shown in the form asked for; a register shows each account asked for, or all combined; neither is refused unless a step fails or a currency is needed and not given.',
 over=['inputs'],quant='every list of operations and macros, ledger and setting of the report and register',
 tests='No test applies an operation by name; every name, argument and setting has its own path.',
 files=['cmd/app/book_op.go','cmd/reports/report.go','cmd/register/register.go'],
 mech=[('dispatch of operations and macros','cmd/app.App.BookOps, bookOp'),('order of steps','cmd/reports.TransactionReport.run, cmd/register.RegisterReport.run')],
 tech=PATHS+'; the constant expressions that take an operation apart are parsed and their groups matched to the parts',
 note='All paths; what each operation does to the book is decided by C07, C08, C09 and C12. How the command line is parsed into arguments and settings is the library\'s.')

prop(id='C02',title='Amounts in a ledger file are read exactly, however long',
 statement='An amount in a ledger file is entered as exactly the number written: every digit counts, before and after the dot, for any number of digits, commas are ignored and the minus signs given before it decide its sign. Nothing is rounded and no digit, dot or sign is passed over or counted twice. The same holds for the number of a price.',
 over=['inputs'],quant='every sequence of characters where an amount is read',
 tests='Tests read a few short amounts; exactness for any length and any mix of commas, dot and signs has no finite sample.',
 files=['loader/lexer.go','loader/parser.go'],
 mech=[('digits over a power of ten','loader.basicReader.parseAmt'),('amount to posting or price','loader.basicReader.parsePosting, parsePrice')],
 tech=PATHS+'; the loops over the digits are decided by an inductive relation on exact integers, one case per kind of character',
 note='All paths and every iteration of the loops, over integers without bound. Exactness of the operations of math/big is the library\'s.')

prop(id='C03',title='No line of a ledger file is passed over and no failure looks like the end',
 statement='Every line of a ledger file is entered as what it is, or it is empty, a comment, or starts with = or D, or reading the file is an error: nothing that is left on a line after it was read goes unnoticed. A file that cannot be opened or read to its end, and anything wrong in it or in a file it includes, is an error of the command, and the file read is the one asked for.',
 over=['inputs','crashes'],quant='every ledger file, included file and failure to read',
 tests='Tests read files that are well formed; a malformed line or failed read anywhere has to be noticed.',
 files=['loader/parser.go','loader/lexer.go','cmd/app/app.go'],
 mech=[('reading line by line, failures by panic and recover','loader.ParseFile'),('characters and the end of the file','loader.basicReader.next'),('uses','the loading of the ledger')],
 tech=PATHS+' with panics, deferred calls and recover; each iteration over the lines is classified by what it enters',
 note='All paths over a line, with each routine that reads a part of it either succeeding or failing. What the routines themselves accept is decided by C02 and C05.')

prop(id='C05',title='Each part of a line is entered as what it is; missing amounts balance',
 statement='A transaction, posting or price of a ledger file is entered with the date, payee, note, account (or what it is an alias of), currency and amount that stand in their places on the line, each text being every character up to what ends it, and a date is three numbers that make a date that exists. A posting without an amount gets, in each currency in which the postings before it do not add up to zero, exactly what is missing, and nothing in the others. The amount after an @ never becomes the amount of the posting.',
 over=['inputs'],quant='every line of a ledger file',
 tests='Tests read a few lines; which character ends which part, and which part goes where, has to be right for any line.',
 files=['loader/parser.go','loader/lexer.go'],
 mech=[('transactions, postings, prices','loader.basicReader.parseTransaction, parsePosting, parsePrice'),('texts','loader.basicReader.parsePayee, parseNote, parseToEOL, parseCCY, parseAccount, parseQuotedString'),('dates','loader.basicReader.parseDate, parseNumber')],
 tech=PATHS+'; provenance of every argument entered, an arbitrary iteration over the characters of a text and over the currencies',
 note='All paths over a line and every iteration. Whether a date exists is the answer of one routine, taken as it is; which characters an account may have is not part of it.')

prop(id='C06',title='Includes are found next to their file; aliases hold where they should',
 statement='An included file is looked for relative to the file that includes it, with or without quotation marks, and is entered into the same ledger. An alias makes every later posting to the short account one to the other account, in its own file and the files included after it, the last alias for an account winning. Aliases of an included file are never seen by the file that includes it.',
 over=['inputs','histories'],quant='every tree of included files and every order of aliases',
 tests='Tests have one level of includes at most; scoping has to hold for any tree.',
 files=['loader/parser.go'],
 mech=[('include and alias directives, copy of the aliases','loader.parseFileLocal'),('use of aliases','loader.basicReader.parsePosting')],
 tech=PATHS+'; ownership of the table of aliases (made by the call, filled from the one given by a complete scan)',
 note='All paths that read a directive or a posting. Joining paths is the library\'s.')

prop(id='C23',title='A file or macro that takes in itself is an error, never endless',
 statement='A ledger file that includes itself, directly or through any number of other files, and a macro that contains itself in the same way, are errors. Neither runs on without end, whatever the nesting.',
 over=['inputs'],quant='every tree of included files and every set of macros',
 tests='No test includes files in a circle; the length of the circle is not bounded.',
 files=['loader/parser.go','cmd/app/book_op.go'],
 mech=[('names of the files being read','loader.parseFileLocal'),('names of the macros being carried out','cmd/app.App.bookOp')],
 tech=PATHS+'; every recursive call is shown to add its own key to the keys of the calls it is in, after a complete search found it not among them',
 note='All paths to a recursive call. A file reached through an endless chain of symbolic links ends by the limit of the system.')

prop(id='C11',title='A record added by a script is entered exactly as given, or is an error',
 statement='Each record that the code of an import or a generator adds becomes one transaction of its date, description and note, with the amount over the denominator in the account and exactly its negative in the counter account, and the same once more for a second amount; accounts and currency not given are those asked for the import. The amount is exact: a text as it is written, a whole number of any size as it is, and a fraction as the shortest decimal that stands for it. A date or amount that cannot be read, a denominator of zero, a missing currency, or a second amount or account without the other is an error of the command, and nothing of the record is entered; nothing else about a record whose arguments are of their kinds is an error.',
 over=['inputs'],quant='every record a script can add',
 tests='No test runs a script; each combination of arguments has its own path, and exactness holds for every number or not at all.',
 files=['script/starlark.go','script/convert.go','cmd/importer/starlark.go','cmd/generate/starlark.go','book/builder.go'],
 mech=[('adding a record','script.GetBuilderFunction'),('amounts','script.GetBigRat'),('running of the code','cmd/importer.ImportDef.processData, cmd/generate.Generate.generate, script.RunStarlark')],
 tech=PATHS+'; the amount of every posting compared as a rational function with the one given',
 note='All paths of adding a record, started from the memory in which the function was handed to the script. What the scripting language does with the code, and reading numbers from text, are the libraries\'. Which texts are dates is not decided here.')

prop(id='C22',title='Imported data is read whole and as it is, from each file, or is an error',
 statement='Every file given to an import is read, turned into postings by the code and listed, in the order given. The code sees what the file says: each JSON value with its own kind, order and place (null entries of a dictionary are left out), each row of a CSV file in order, each field in its place or under the name in its place of the header. A file that cannot be opened, is not one JSON structure to its end or not a proper CSV file, has a row with more fields than the header, or whose code fails, is an error, and no other is.',
 over=['inputs'],quant='every imported file and import setting',
 tests='No test imports a file; that nothing is passed over must hold for every structure and every malformed file.',
 files=['script/convert.go','cmd/importer/import.go','cmd/importer/import_op.go'],
 mech=[('JSON','script.ReadJSON, jsonToStarlark'),('CSV','script.GetReadCSV'),('files and settings','cmd/importer.ImportDef.run, NewBookImporterByConfig, NewCSVBookImporter')],
 tech=PATHS+'; an arbitrary iteration over the elements, entries, rows, fields and files',
 note='All paths of reading, and every iteration. Decoding JSON and CSV is the libraries\' as long as they are not set to be lenient. Of two columns of the same name the last one is seen.')

prop(id='C17',title='A printed ledger or beancount file says exactly what the book holds',
 statement='Ledger output, of a report or an export, has for each transaction in order a line with its date, payee and note, and below it for each posting in order a line with its account, currency, exact amount (never rounded to the decimals shown otherwise) and note; an export also has a line for each price. No payee or note can end its place on the line early or be read as something else, and a currency that cannot stand bare is in quotation marks. Beancount output says the same of each transaction and posting, with a quoted payee, accounts capitalised and currencies in capitals without spaces, and a price for each price of the book.',
 over=['inputs'],quant='every book printed and every text in it',
 tests='No test prints a book; each combination of payee, note, currency and amount makes its own line.',
 files=['cmd/reports/ledger.go','cmd/reports/beancount.go','cmd/export/ledger.go','cmd/export/beancount.go','cmd/app/ledger.go','cmd/app/print.go','loader/lexer.go'],
 mech=[('lines of ledger and beancount files','cmd/reports.ShowLedger, ShowBeancount, cmd/export.ShowLedger, ShowBeancount'),('payees and notes that can be read back','cmd/app.LedgerPayee, LedgerNote'),('exact amounts','cmd/app.BookPrinter.FormatExact'),('currencies in quotation marks','loader.IsCCYRune')],
 tech=PATHS+'; the text put out by each path and by an arbitrary iteration is compared piece by piece with the fields of the element',
 note='All paths that print, every iteration. What printing a number or replacing characters does is the library\'s. Accounts are printed as they are; a currency that contains a quotation mark is not dealt with.')

prop(id='C33',title='Each currency is shown with the decimals its amounts need',
 statement='Each currency with a posting, in a ledger that is read or in records that are imported or generated, has noted for it the most decimals that any of its amounts needs: the fewest that write the amount exactly, or, for an amount that no number of decimals can write, as many as its denominator has digits. Every posting counts, whatever the order. What is printed uses the decimals noted for a book.',
 over=['inputs'],quant='every list of postings and every amount',
 tests='Tests build a few books with whole amounts and never look at the decimals.',
 files=['book/builder.go','cmd/app/print.go','cmd/reports/report.go','cmd/register/register.go','cmd/export/export.go','cmd/accounts/accounts.go'],
 mech=[('decimals of an amount','book.GetDecimals'),('of a currency','book.Builder.Build'),('used to print','cmd/app.App.NewBookPrinter and its callers')],
 tech=PATHS+'; inductive invariant of the loop over the powers of ten, and def-use chains from every printer to a book',
 note='That as many decimals as the denominator has bits are always enough is arithmetic. Amounts made by operations (shares, conversions) are shown with the decimals noted before. That amounts are shown with those decimals is C20, written exactly C17, that renaming keeps them C12 and listing them C31.')
prop(id='C36',title='Dates are those of the calendar',
 statement='What is written as a date in an option, an operation, an import or a script counts as one only if the year has that month and the month that day, the year, month and day being the numbers written in their places, or the first of the period named from today; anything else is an error and is not taken for some other date. The days between two dates, the date some days later and the part of a year that has gone by follow the Gregorian calendar, with a leap day every fourth year but for the hundreds not divisible by four hundred. A date is shown with its own year, month and day.',
 over=['inputs'],quant='every text, every date and every number of days',
 tests='Tests count the days between a dozen dates, and read none.',
 files=['book/date.go','book/registry.go','cmd/app/book_op.go','script/book_op.go','script/starlark.go'],
 mech=[('which dates there are','book.Date.IsValid'),('reading','book.DateFromString'),('counting','book.Date.AsDays, book.GetDateFromDays, book.Date.AsYears, book.YearIsLeapYear'),('showing','book.Date.String')],
 tech=PATHS+'; case analysis of the leap rule over what each path knows of the year, inductive sums over the table of the months, and the groups of the regular expressions',
 note='Dates of the ledger file itself are C02 and C05. That every date shown comes back the same is C03; the periods are C07. Numbers too large for a machine integer are out of scope.')
prop(id='C37',title='Beancount accounts open at first use and close only when empty',
 statement='In beancount output each account that has a posting is opened once, on the date of its first posting. It is closed, the day after its last posting, exactly if its postings add up to zero in every currency.',
 over=['inputs'],quant='every book printed',
 tests='No test prints a book; which of several currencies is zero, and which posting is the first, varies without bound.',
 files=['cmd/reports/beancount.go','cmd/export/beancount.go'],
 mech=[('dates and balances of accounts','cmd/reports.ShowBeancount, cmd/export.ShowBeancount')],
 tech=PATHS+'; what each posting changes in the records kept per account, and what each record prints',
 note='All paths and an arbitrary iteration over postings, accounts and currencies. Transactions are taken to be in the order of their dates, which C10 decides.')

prop(id='C16',title='No value of a book can break or add to the HTML of a report',
 statement='In an HTML report each transaction and each posting appears with its own date, payee, account, currency and amount, in order. Every text that comes from the book is escaped where it stands, so that it can neither end nor begin an element, and every element opened is closed in its order, however deep accounts are nested and whatever depth comes last.',
 over=['inputs'],quant='every report and every text in it',
 tests='No test makes an HTML report; payees with markup and every sequence of depths matter.',
 files=['cmd/reports/html.go'],
 mech=[('HTML of transactions and postings','cmd/reports.ShowHTMLTransactions')],
 tech=PATHS+'; each value in the text put out is followed to its escaping, and the elements opened and closed are counted as a polynomial per iteration',
 note='All paths and an arbitrary iteration over transactions, postings and levels. The style sheet is the user\'s own and printed as it is. That escaping removes markup is the library\'s.')

prop(id='C18',title='JSON, CSV and scripts get every posting, each value under its own name',
 statement='In JSON and CSV, of a report, an export or a register, there is an entry for each transaction, posting or register entry in order, and the value under each name is the one the name says: amounts exact in CSV, and as the nearest number in JSON, never left out because they are zero. An export is of the book after its operations and in the form asked for, and a failure to encode or write it is an error. A script sees each transaction and posting of its book in order, with every name listed giving the value it says.',
 over=['inputs'],quant='every book and register written, and every field',
 tests='No test writes JSON or CSV or shows a book to a script; two values swapped show only in books where they differ.',
 files=['book/posting.go','book/transaction.go','book/registry.go','book/price.go','cmd/export/csv.go','cmd/export/export.go','cmd/register/show_register.go','cmd/app/print.go','script/book.go','script/book_op.go'],
 mech=[('JSON objects','book.Posting.MarshalJSON, book.Transaction.MarshalJSON, book.RegistryEntry.MarshalJSON'),('CSV rows','cmd/export.ShowCSV, cmd/register.ShowCSV, cmd/app.BookPrinter.PrintCSV'),('scripts','script.starlarkPosting, script.starlarkTransaction, script.starlarkIterator')],
 tech=PATHS+'; provenance of each value written, matched with the name in the header, the tag of its field or the name asked for',
 note='All paths and an arbitrary iteration over what is written. Encoding is the library\'s. The names are those of today.')

prop(id='C21',title='A command that says it succeeded did: no failure on the way goes unnoticed',
 statement='A command succeeds only if nothing it needed failed: reading the ledger, the configuration, the files and the data given to it, applying operations, running scripts, downloading, saving and writing its output. Output that could not be written, in part or at the end, is an error, except that the reader of a pipe or pager may leave early. A command that failed says why on standard error and the program exits with a status that is not zero.',
 over=['inputs','fault_sequences'],quant='every command, and every point at which reading, writing or computing something can fail',
 tests='No test makes anything fail; which of the many calls that can fail goes unheeded shows only when that one does.',
 files=['main.go','cmd/root.go','cmd/config.go','cmd/app/app.go','cmd/app/print.go','cmd/app/book_op.go','cmd/reports/report.go','cmd/reports/text.go','cmd/export/export.go','cmd/register/register.go','cmd/importer/import.go','cmd/generate/generate.go','cmd/accounts/accounts.go','cmd/currencies/currencies.go','cmd/utils/json.go','cmd/utils/docs.go'],
 mech=[('errors of calls','every function of the program'),('the printer keeps the first error','cmd/app.BookPrinter.Write, cmd/app.BookPrinter.Err'),('exit status','main.main, cmd.Execute')],
 tech=PATHS+'; each call with an error result on a path that succeeds must be known not to have failed; typestate of the printer (printed, asked)',
 note='All functions but cmd/web, which is not built. Messages about progress and warnings on the standard streams are not output. Starting a pager may fail; the output then goes where it went. Closing a file only read is not checked.')

DL=['cmd/download/monzo.go','cmd/download/starling.go','cmd/download/nordigen.go','cmd/download/net.go','cmd/utils/json.go']
prop(id='C25',title='The state of a download is replaced whole or not at all, and kept private',
 statement='Saving the state of a download puts the whole of it, compressed just when the name ends in .gz, into a new file beside the old one that only the user can read; this takes the place of the old one in one step after it was written, synchronised and closed without error. Until then, and after any failure or crash on the way, the old state is there whole. Loading reads all of the file, fails for any other problem than that there is none yet, and nothing else in a download touches files.',
 over=['crash_points','fault_sequences'],quant='every point at which saving can fail or be interrupted, and every state',
 tests='No test saves a state, and none can crash between two of its steps.',
 files=['cmd/utils/json.go','cmd/download/monzo.go','cmd/download/starling.go','cmd/download/nordigen.go'],
 mech=[('saving','cmd/utils.SaveToFile'),('loading','cmd/utils.LoadFromFile'),('nothing else changes files','every function of cmd/download')],
 tech=PATHS+'; typestate of the new file (made, written, ended, synchronised, closed, renamed) along each path, and a scan of calls that change files',
 note='All paths of saving and loading and all functions of the downloads. That renaming is one step, and that synchronising makes data safe, is the system\'s; the directory is not synchronised.')

prop(id='C26',title='A download asks for everything and loses nothing it had or was given',
 statement='A download asks for every account the bank names, and every feed or space of it: from Monzo until a page is not full, each page starting before the latest of the last, and only the last 89 days if all is refused; from Starling since the account was opened, or no later than 20 days before an item it has. Every record received (but not what Nordigen calls pending) is stored under its own identifier, in the place of an older one, and no record stored before is dropped. It reports success only if all of this was received and the state, as loaded and added to, was saved where it was loaded from.',
 over=['inputs','histories','fault_sequences'],quant='every sequence of responses of a bank and every state of earlier downloads',
 tests='No test downloads: what is missed shows only for accounts with many pages, or after a while, and only to who knows what should be there.',
 files=DL[:3],
 mech=[('Monzo','cmd/download.MonzoClient.Sync, GetAllTransactions'),('Starling','cmd/download.StarlingClient.Sync, syncFeed'),('Nordigen','cmd/download.NordigenClient.Sync, RefreshAccounts')],
 tech=PATHS+'; what each path asks for, and what an arbitrary iteration stores under which key; writes to the state may only add',
 note='All paths and an arbitrary iteration over accounts, pages and records. What the bank answers is not known. That asking comes to an end is not part of it; for Nordigen pending transactions are not kept.')

prop(id='C27',title='A response counts only if it is a success, received whole and understood whole',
 statement='A request goes once to the address asked for, with the values given; it succeeds only if the response has a status of success, was read to its end without error and decoded strictly, with no field unknown, into what was asked for. A refusal (403) is told apart from other failures, and the body of a response is closed in every case.',
 over=['fault_sequences','inputs'],quant='every response and every failure of the connection',
 tests='No test makes a request; failures half way do not happen on demand.',
 files=['cmd/download/net.go'],
 mech=[('requests and responses','cmd/download.fetchFromURL, cmd/download.postToURL')],
 tech=PATHS+'; typestate of a response (got, read, status known, decoded, closed) along each path',
 note='All paths of the functions that make requests; others may not make any. Decoding is the library\'s.')

prop(id='C28',title='A download is authorised by its own, current and saved credentials',
 statement='An authorisation code is exchanged for a token only if it came back, alone and without error, with the state that this request was made with, which is made of at least 16 random bytes. A token that was got or renewed is saved before it is used or the run fails, and none is used that has expired. Requests are made with the token of the state or the credentials of the configuration, of the bank asked.',
 over=['inputs','histories'],quant='every answer to the request for authorisation, and every state of a token',
 tests='No test authorises a download; a forged answer or an expired token does not come up by itself.',
 files=DL,
 mech=[('Monzo','cmd/download.MonzoDownload.NewMonzoClient'),('waiting for the code','cmd/download.CaptureCode'),('Nordigen and Starling','cmd/download.NordigenClient.Token, cmd/download.StarlingDownload.Token')],
 tech=PATHS+'; provenance of code, state and token, and what the path must know of them where they are used',
 note='All paths of what makes clients, gives credentials and waits for codes. A token renewed by the library in the middle of a download is not saved. Randomness and the exchange are the library\'s.')

prop(id='C29',title='Tokens, secrets and codes appear in no message, and go only to the bank',
 statement='Nothing that a download prints or reports as an error contains a token, a configured secret, an authorisation code or the response that has a token, and help does not show the secrets configured. Requests, which carry them, go only to fixed hosts by https.',
 over=['inputs','configurations','fault_sequences'],quant='every message and error of a download',
 tests='No test looks at messages of downloads; most of the errors do not come up.',
 files=DL,
 mech=[('messages and errors','every function of cmd/download, cmd/utils.SaveToFile, LoadFromFile'),('help','MonzoDownload.Add, StarlingDownload.Add, NordigenDownload.Add')],
 tech=PATHS+'; taint of each text put out or made an error with what is secret',
 note='All paths of all functions of the downloads. What the libraries put in their errors is theirs.')

prop(id='C30',title='Records from a bank are kept as they came, and all of the state is saved',
 statement='A record received is kept and written with everything it had, under the identifiers and times it has itself, and one without them is an error. Each part of the state is saved and read under a name of its own.',
 over=['inputs'],quant='every record a bank may send',
 tests='No test decodes a record; fields that nobody asked for are missed only later.',
 files=DL,
 mech=[('records','UnmarshalJSON and MarshalJSON of cmd/download.Transaction, FeedItem, NordigenTransaction and others'),('state','cmd/download.MonzoData, StarlingData, NordigenData')],
 tech=PATHS+'; provenance of each field of a record, and a walk over the types of the state and their tags',
 note='All paths of reading and writing a record, all types the state is made of. Numbers are kept as floating point, as the library reads them.')

prop(id='C31',title='The accounts and currencies listed are exactly those of the book',
 statement='The list of accounts has each account with postings whose full name matches what was asked for, once, in order; by default only those with a balance in some currency at the end of the book, with --all every one. The list of currencies has each currency of the book once, in order, with its decimals.',
 over=['inputs'],quant='every book and pattern',
 tests='No test lists accounts or currencies; accounts with several currencies and duplicate names are not tried.',
 files=['book/book.go','cmd/accounts/accounts.go','cmd/currencies/currencies.go'],
 mech=[('accounts of a book','book.Book.Accounts'),('showing accounts','cmd/accounts.Add'),('currencies','cmd/currencies.Add, book.Book.GetCCYDecimals')],
 tech=PATHS+'; which accounts an arbitrary iteration adds, given what the path knows of matching, balance and being listed',
 note='All paths, an arbitrary posting, balance and currency. Sorting is the library\'s.')

prop(id='C19',title='The same ledger, settings and command always give the same output',
 statement='What is shown, exported or made from a ledger does not depend on chance, on the time (except the date of today) or on the order in which the program happens to go over its tables of accounts, currencies, prices, macros or settings: whatever is listed or reported from one is put in an order that tells its entries apart. Where several entries come to the same thing, which one is kept (the most common account of a payee, the payee most alike, the decimals of currencies renamed to one) is told by what they are. This goes for the text of errors too.',
 over=['inputs','configurations','histories'],quant='every ledger, configuration and command; every order in which a table is gone over',
 tests='Tests run once and compare totals, and a table of few entries is often gone over in the same order.',
 files=['book/book.go','book/book_accum.go','book/book_reclassify.go','book/book_utils.go','book/builder.go','book/price.go','cmd/export/*.go','cmd/reports/*.go','cmd/currencies/currencies.go','cmd/importer/*.go','cmd/utils/cli_config.go','loader/parser.go','script/convert.go'],
 mech=[('loops over maps','every function of the packages built that has one'),('time and chance','every function a command comes to')],
 tech=PATHS+'; for every loop over a map, what an iteration keeps, writes, calls and lists is shown not to depend on the iterations before it, and lists made are followed to the sort that orders them',
 note='The download command and the web server (which is not built) are left out. Order of equal postings is C10, prices of a day C15. Sorting and text templates are those of the libraries. Currencies filled in for a posting without an amount may be entered in any order, since postings are put in order afterwards (C10).')
prop(id='C20',title='Tables show every row and amount in its place, and cut no amounts',
 statement='In the text report each posting account has a row with its name indented by its level, each transaction a column headed by its date, and each amount stands in the row of its account and currency and the column of its transaction; an amount that has no place, or whose place is taken, is an error, and nothing else is unless printing fails. The register has a row for each entry, with each value under its heading. Tables print every row in order, with columns as wide as their cells, except text columns that may shrink to the terminal, and amounts with their currency and its decimals.',
 over=['inputs','configurations'],quant='every report and register, every width of a terminal',
 tests='Tests print a few columns; no test makes a table of transactions or of a register, or one that is too wide.',
 files=['cmd/reports/text.go','cmd/register/show_register.go','cmd/app/print.go'],
 mech=[('report','cmd/reports.ShowTransactions'),('register','cmd/register.ShowText'),('columns','cmd/app.BookPrinter.PrintColumns'),('cells','cmd/app.ColumnMoney, cmd/app.PadString, cmd/app.Length, cmd/app.BookPrinter.FormatNumber')],
 tech=PATHS+'; where an arbitrary iteration over postings, entries, cells and characters puts what it has, and what it knows of that place and of widths',
 note='All paths, arbitrary rows, cells and characters. Number formatting for a language and what counts as printable are the library\'s; numbers go through floating point.')
prop(id='C34',title='Reclassification takes the usual account of the closest payee, and nothing else',
 statement='When asked to reclassify, an import changes the other account in each two-posting transaction with the account imported to, if some payee of the main ledger is more than half alike: to the account most often opposite that account in two-posting transactions of the payee most alike, ties going to the first name. No other part of any posting changes, and the result is the same on every run.',
 over=['inputs','configurations'],quant='every imported and main book, account and payee',
 tests='No test reclassifies anything.',
 files=['book/book_reclassify.go','cmd/importer/import.go'],
 mech=[('counting, choosing and changing','book.Book.ReclassifyByAccount'),('when and by what','cmd/importer.ImportDef.run')],
 tech=PATHS+'; loop summaries for what an arbitrary transaction adds to the counts, and a best-of rule for scans of maps that makes the result independent of their order',
 note='All paths. How alike two payees are is the library\'s Jaro-Winkler measure, taken as given.')
prop(id='C35',title='A register has every movement of its accounts, with running balances',
 statement='Each posting of an account asked for whose transaction has other accounts moving the opposite way in the same currency gives one entry naming them all, or when split one entry for each with its share in proportion, and no other posting gives one. Entries come in the order of the book with the date, payee, account, amount, currency and notes of the posting, the balance of its currency after it, and its amount and the total in the base currency at the price of the transaction itself if it has one or else the price of that day. A count shows just the first or the last entries, and descending order just turns them around.',
 over=['inputs','configurations'],quant='every book, expression, base currency, split setting, count and order',
 tests='No test makes a register.',
 files=['book/registry.go','book/transaction.go','cmd/register/show_register.go'],
 mech=[('entries and balances','book.Book.ExtractRegister'),('price of the transaction','book.Transaction.InferRate'),('count and order','cmd/register.ShowReport')],
 tech=PATHS+'; nested loop summaries over an arbitrary transaction, posting, counter account and entry, with the numbers they write',
 note='All paths. A posting alone in its currency and direction has no entry, as the program means it; which dates are kept is C09, which accounts and settings are passed on is C14.')
prop(id='C38',title='Summary reports sum up every group of accounts and change no book',
 statement='A report with a summary has, for each transaction, the postings of the book unchanged, one of zero for each other account and currency of the book, and, for each account that others are under or that has other currencies, the sum of the amounts at or under it in the base currency at the prices of that date. Just the hidden account is left out, and just the accounts that match the credit expression are shown with their sign turned. The book itself stays as it was.',
 over=['inputs','configurations'],quant='every book, set of accounts, currency, divider, hidden account and credit expression',
 tests='One test sums up a small book with one currency; none has groups that are accounts themselves, several currencies, a hidden account, or uses the book afterwards.',
 files=['book/book_accum.go','book/posting.go'],
 mech=[('summary','book.Book.Accumulate'),('zero amounts','book.addEmptyAccounts'),('groups','book.findMaxCommonPrefix'),('names and levels','book.splitByStrings')],
 tech=PATHS+'; loop summaries for the groups noted, the zero postings added and the sums made, each over an arbitrary posting, account and group',
 note='All paths. The order in which groups of one transaction are shown is by amount through floating point and is not claimed; that an account without a price counts one to one is C15.')
prop(id='C32',title='Reading changes no book, and a copy of a book shares nothing with it',
 statement='Looking up transactions, accounts, prices or sums, making a register, and showing a book in any report or export leave the amounts, postings, prices and currencies of the book as they were. A copy of a book has the same postings, prices and currencies, and nothing done to the copy or to the book afterwards shows in the other. A script that generates transactions works on such a copy; what it gives is compared and printed by the ledger as it was read.',
 over=['inputs','histories'],quant='every book, and every order of reading, copying and changing',
 tests='Tests read each book once and never copy one.',
 files=['book/book.go','book/price.go','book/book_accum.go','book/registry.go','cmd/generate/generate.go','cmd/export/beancount.go'],
 mech=[('copying','book.Book.Duplicate'),('reading','book.Book.Accumulate, book.Book.ExtractRegister, book.Book.GetPrice, book.Book.GetPriceList'),('showing','cmd/reports, cmd/export, cmd/register'),('scripts','cmd/generate.Generate.run')],
 tech='Interprocedural effect analysis of what each reader may write, with the compaction left out; '+PATHS[0].lower()+PATHS[1:]+'; ownership of every number, map and list of a copy',
 note='That the compaction keeps what a book holds is C10. Prices of a copy may share numbers with the book, which nothing may then change in place; this is checked for all functions of the package.')
prop(id='C39',title='A setting is what was given, else what was configured, and only if it is valid',
 statement='Until its flag is given, a setting is what the configuration says, and a flag sets just the setting it is named after; a setting with listed values (the kind of a report, register or export, the period) takes one of those, in any letter case, and anything else, given or configured, is an error before anything is read or shown; what an import or generator needs and is not configured has to be given. An import format has the type and just the settings written in it, each once, one without a value meaning true; an unknown type, a delimiter that is not one character, or a setting that should be true or false and is not, is an error. The first configuration file found is read and anything in it that is unknown or unreadable is an error; only where there is none are the defaults written, and these are then what is used.',
 over=['inputs','configurations'],quant='every configuration file, environment and command line',
 tests='No test loads a configuration or runs a command.',
 files=['cmd/config.go','cmd/root.go','cmd/utils/types.go','cmd/utils/cli_config.go','cmd/importer/import.go','cmd/importer/import_op.go','cmd/reports/report.go','cmd/register/register.go','cmd/export/export.go','cmd/app/app.go'],
 mech=[('listed values','cmd/utils.Enum'),('formats','cmd/utils.CLIConfig, cmd/importer.NewBookImporterByConfig'),('flags','Add in each package of cmd'),('configuration','cmd.load, cmd.Execute')],
 tech=PATHS+'; comparison of every flag registered with the field it sets and its default, of listed values with the constants they are compared with, and of the default configuration with the types it is decoded into',
 note='Parsing of flags (pflag) and of TOML is that of the libraries. Settings of an import that its type does not know are not refused. The web server, which is not built, is left out.')

prop(id='C43',title='A script or style sheet is the one given, runs once, and does what it asks',
 statement='A script or style sheet given as file:NAME is the whole content of that file, any other is the text itself, and if the file cannot be read nothing is run or shown. The script configured is run once, each line it prints comes out as a comment of the ledger, and asking to fail makes the command fail with its message. Asking its book for the accounts to be mapped, or for the dates up to or since a date, does exactly that with what was given, or fails.',
 over=['inputs','configurations'],quant='every script, style sheet and message, and every operation a script can ask for',
 tests='No test runs a script or reads one from a file.',
 files=['cmd/utils/cli_file_or_str.go','script/starlark.go','script/book_op.go','cmd/generate/generate.go','cmd/importer/starlark.go','cmd/reports/html.go'],
 mech=[('text or file','cmd/utils.GetFileOrStr'),('running','script.RunStarlark'),('printing','script.Print'),('operations','script.starlarkBook.Attr and the functions bound there'),('style sheet','cmd/reports.ShowHTMLTransactions')],
 tech=PATHS+'; flow of the configured text through parameters to where it is run or shown',
 note='The interpreter of the scripting language is the library\'s; the built-in style sheet is any constant. What a script sees of the book is C18, what it adds C11, its own copy of the book C32.')

prop(id='C44',title='A ledger file is refused only for what is wrong in it',
 statement='A ledger file that can be read is refused only if a line is of no known kind, lacks what its kind needs (the currency of an amount that is not zero; the unit, currency and price of a price; the file of an include; the = and account of an alias), has a date or time of another form or a date that does not exist, leaves a quotation mark open, or has something left over at its end. Blanks before a date, time, payee, account, currency or amount never make a difference. A file is refused for including another only if that one is already being read.',
 over=['inputs'],quant='every text of a ledger file, and every place where reading it stops',
 tests='Tests read a few well-formed files; that no other well-formed file is refused is a statement on all of them.',
 files=['loader/parser.go','loader/lexer.go'],
 mech=[('lines','loader.parseFileLocal'),('parts','loader.basicReader'),('stopping','loader.basicReader.stop')],
 tech=PATHS+'; for every path on which reading stops, the reason is among what the path knows of the characters and parts read',
 note='That what is wrong is refused is C03 and C05. What the transactions are refused for once they are read, a currency that does not add up, is C01.')

na(id='C40',title='A request to the web server is answered with its own options only',
 statement='Each request to the web server is answered as the command line would with the options of that request, whatever other requests came before or come at the same time.',
 over=['schedules','histories'],quant='every sequence and interleaving of requests',
 tests='There is no test of the server.',files=['cmd/web/web.go'],mech=[('requests','cmd/web.WebApp.run, handle')],
 reason='cmd/web does not compile at this commit (the files it embeds are not in the repository) and no command uses it (its import is commented out in cmd/root.go), so there is no type-checked program to analyse. The options shared between requests were repaired when the code was read.')
na(id='C41',title='The internal rate of return found is one at which the payments are worth zero',
 statement='The rate computed for a series of payments makes the sum of their values, each discounted to the first date, zero within the tolerance, whenever there is such a rate.',
 over=['inputs'],quant='every series of dates and payments',
 tests='Convergence depends on the payments.',files=['book/irr.go'],mech=[('Newton iteration','book.CalculateIRR')],
 reason='Whether Newton iteration in floating point converges within its limit depends on the numbers at run time; no static argument in reach bounds it, and the loop ends without a rate when it does not. No command computes a rate. The dates it uses are checked as C36.')
na(id='C42',title='An amount on the screen is the exact amount rounded once to its decimals',
 statement='The number printed for an amount in a table is the exact amount rounded half away from zero to the decimals of its currency, for amounts of any size.',
 over=['inputs'],quant='every amount',
 tests='No test prints large amounts.',files=['cmd/app/print.go'],mech=[('formatting','cmd/app.BookPrinter.FormatNumber')],
 reason='Numbers are formatted for the language by golang.org/x/text from a binary floating point number, so the property does not hold beyond some fifteen digits, and its rounding is that of the library. That the right amount is given to it with the right decimals is C20 and C33; what other programs read is exact (C17).')
