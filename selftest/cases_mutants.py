# What changes made by machine showed to be missed (see selftest/mutate)
bug('C21','cmd/reports/report.go','		creditre, err = regexp.Compile(report.Credit)\n		if err != nil {','		creditre, err = regexp.Compile(report.Credit)\n		if err == nil {')
bug('C21','book/book.go','	re, err := regexp.Compile(search_acct)\n	if err != nil {','	re, err := regexp.Compile(search_acct)\n	if err == nil {')
bug('C05','loader/parser.go',"	if rr.ch == '*' {\n		rr.next()\n","	if rr.ch == '*' {\n")
bug('C26','cmd/download/monzo.go','			trans, err = m.getTransactions(accountID, since, LIMIT)\n','')
bug('C35','book/registry.go','caccts = caccts[0:1]','')
bug('C26','cmd/download/monzo.go','	if m.data.Transactions == nil {\n		m.data.Transactions = make(map[string]*Transaction)\n	}\n','')
bug('C26','cmd/download/starling.go','	if acct.FeedItems[categoryUid] == nil {\n		acct.FeedItems[categoryUid] = make(map[string]*FeedItem)\n	}\n','')
bug('C26','cmd/download/nordigen.go','			acct.Transactions = make(map[string]*NordigenTransaction)\n','')
bug('C26','cmd/download/starling.go','		m.data.Accounts = make(map[string]*StarlingAccountData)\n','')
same('C26','cmd/download/monzo.go','	if m.data.Transactions == nil {\n		m.data.Transactions = make(map[string]*Transaction)\n	}\n','	if have := m.data.Transactions; have == nil {\n		have = make(map[string]*Transaction)\n		m.data.Transactions = have\n	}\n')
