package main

var properties = []property{
	{"C01", checkC01, "every path of the transaction builder that accepts a transaction", nil},
	{"C10", checkCompact, "every path and loop iteration from the listing of transactions: sort order, merge, zero removal, grouping and running balance", nil},
	{"C08", checkMove, "every path of the move and depreciation operations: what each iteration appends, under which condition, and its exact sum", nil},
	{"C04", checkApart, "every path that starts a transaction or adds a posting: the key noted, its being new, the payee used and what the posting gets", nil},
	{"C13", checkDedup, "every path of the removal of duplicates, each iteration of the walk through the other book, and every place that imports or generates transactions", nil},
	{"C07", checkPeriods, "every path that gives the first day of a period, and each iteration over the postings grouped by one", nil},
	{"C15", checkPrices, "every path of the look-up of a rate, of the keeping of a price and of the making of the lists of prices", nil},
	{"C24", checkOps, "every path of the carrying out of a list of operations and of one operation: which one, with which parts of the text, and the macros", nil},
	{"C14", checkConvert, "every path of the report and register commands, and each iteration over the postings converted", nil},
	{"C12", checkRename, "every path of the renaming of accounts and currencies, and each iteration over postings, prices and decimals", nil},
	{"C09", checkDates, "every path of the date filters of books and registers and of every place that calls them", nil},
	{"C03", checkLines, "every path through the reading of one line of a ledger file, of one character, and of the file as a whole", nil},
	{"C05", checkParts, "every path that reads a transaction, a posting or a price, each iteration over the missing amounts, and over the characters of a text", nil},
	{"C23", checkCycles, "every path on which a file or macro takes in another, and the search among those it is in", nil},
	{"C06", checkIncludes, "every path that reads an include or an alias or heeds one, and the copying of the aliases", nil},
	{"C11", checkRecords, "every path on which a script adds a record, of the import and the generator that run it, and each posting made", nil},
	{"C22", checkImport, "every path that reads imported JSON or CSV, each iteration over lists, entries, rows and fields, and over the files given", nil},
	{"C17", checkOutput, "every path that prints a ledger or beancount file, each iteration over transactions, postings, prices and the characters of a currency, and the text of payees, notes and amounts", nil},
	{"C33", checkDecimals, "every iteration that tries a number of decimals, every posting that counts for its currency, and every printer made", nil},
	{"C44", checkRefusal, "every line of a file that is refused, and every place where a reader of a part stops", nil},
	{"C43", checkCode, "every path that reads, runs or shows a script or style sheet, and every operation that a script may ask of its book", nil},
	{"C36", checkCalendar, "the arithmetic of dates: which are valid, their numbers, years and days, and the inverse; text taken for a date", nil},
	{"C37", checkAccountDates, "every path that prints a beancount file: the accounts collected from each posting, and the lines that open and close them", nil},
	{"C35", checkRegister, "every posting of an account asked for with an account on the other side gives an entry with its date, payee, account, amount, notes and counter accounts; amounts are shared in proportion or joined; balances by currency and in the base currency are the sum of the entries so far; count and order select entries", nil},
	{"C32", checkCopies, "what reads a book, and what shows one, writes nothing of it but through the compaction; numbers of prices are never changed in place; a copy has new numbers, maps and lists with what the book has; scripts get a copy", nil},
	{"C34", checkReclassify, "the counts by payee and account, the most common account of each payee, and the account written are those of the rule, ties by name; nothing else is written; imports reclassify by the main book just when asked", nil},
	{"C38", checkSummary, "summary reports keep the postings and add zeros and the sums of groups; just the hidden account is left out", nil},
	{"C16", checkHTML, "every path that makes an HTML page, each iteration over transactions and postings, each value put into the page, and the elements opened and closed", nil},
	{"C18", checkFields, "every path that writes a posting, transaction or register entry as JSON or CSV, gives it to a script or goes over them, and each iteration over those written", nil},
	{"C21", checkErrors, "every path of every function of the program: the calls on it that can fail, what is printed on it and whether that was written, and the printer itself", nil},
	{"C25", checkState, "every path that saves or loads the state of a download: each call on it that touches files, its order and its outcome; and every function of the downloads for other changes of files", nil},
	{"C27", checkResponses, "every path that makes a request of a download: the status, the reading, decoding and closing of its response on each; every function of the downloads for requests made elsewhere", nil},
	{"C26", checkSync, "every path that downloads from a bank: what each request asks for, each iteration over pages, accounts, spaces and records received, every write to what is kept, and the saving of it", nil},
	{"C28", checkAuth, "every path that makes the client of a download, that gives the credentials of its requests, or that waits for an authorisation code", nil},
	{"C29", checkSecrets, "every text printed, error made and flag registered by a download, and every address it asks", nil},
	{"C30", checkReceived, "every path that reads or writes a record received from a bank as JSON, and every field of the types of the state of a download", nil},
	{"C02", checkAmounts, "every path that reads an amount, each iteration over its digits, and every path that enters a posting or a price", nil},
	{"C20", checkTables, "every path that makes or prints a table, each iteration over rows, cells and characters", nil},
	{"C39", checkSettings, "enumerated settings are one of those listed; the settings of an import; flags give the setting they are named after and default to the configuration; the first configuration file there is read whole, or the defaults are written and used", nil},
	{"C19", checkOrderless, "every loop over a map: what it keeps, changes and prints does not depend on the order of the entries; lists made of them are put in order; the time comes in only as the date of today", nil},
	{"C31", checkListed, "every path that lists accounts or currencies, each iteration over postings and balances, and the commands that show them", nil},
}
