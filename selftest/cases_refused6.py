# What a listing is refused for
bug('C20','cmd/reports/text.go','			if rows[pidx][i+1] != nil {','			if rows[pidx][i+1] != nil || v.GetAmount().Sign() == 0 {')
bug('C20','cmd/reports/text.go','			if !ok {','			if !ok || len(trans[i]) != len(trans[0]) {')
bug('C31','book/book.go','	re, err := regexp.Compile(reg)\n	if err != nil {','	re, err := regexp.Compile(reg)\n	if err != nil || reg == "" {')
bug('C37','cmd/reports/beancount.go','	for _, t := range trans {','	if len(trans) == 0 {\n		return errNone\n	}\n	for _, t := range trans {','cmd/reports/text.go','func ShowTransactions(','var errNone = fmt.Errorf("nothing to show")\n\nfunc ShowTransactions(')
bug('C16','cmd/reports/html.go','HTMLCSS string) error {\n','HTMLCSS string) error {\n	if len(trans) == 0 {\n		return errNone\n	}\n','cmd/reports/text.go','func ShowTransactions(','var errNone = fmt.Errorf("nothing to show")\n\nfunc ShowTransactions(')
same('C20','cmd/reports/text.go','			if !ok {\n				return','			if found := ok; !found {\n				return')
