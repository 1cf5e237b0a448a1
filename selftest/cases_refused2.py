# What an operation, renaming, move or range of dates is refused for
bug('C08','book/book.go','	if periods <= 0 {','	if periods <= 1 {')
bug('C08','book/book.go','	if periods <= 0 {','	if periods <= 0 || periods > 120 {')
bug('C08','book/book.go','	re, err := regexp.Compile(search_acct)\n	if err != nil {\n		return fmt.Errorf("invalid account regex \'%s\': %w", search_acct, err)\n	}\n	if periods','	re, err := regexp.Compile("(?i)" + search_acct)\n	if err != nil {\n		return fmt.Errorf("invalid account regex \'%s\': %w", search_acct, err)\n	}\n	if periods')
bug('C24','cmd/app/book_op.go','		if d == book.Date(0) {','		if d == book.Date(0) || len(op_act) > 10 {')
bug('C24','cmd/app/book_op.go','		if args == nil {\n			return fmt.Errorf("map op','		if args == nil || args[1] == args[2] {\n			return fmt.Errorf("map op')
bug('C24','cmd/app/book_op.go','			if parent == op {','			if strings.HasPrefix(parent, op) {')
bug('C24','cmd/app/book_op.go','	if ok {\n','	if ok {\n		if len(parents) > 0 {\n			return fmt.Errorf("nested")\n		}\n')
bug('C24','cmd/app/book_op.go','		for _, typ := range book.FloorTypes {','		for _, typ := range book.FloorTypes[1:] {')
bug('C24','cmd/app/book_op.go','	case "since=":','	case "sinc=":')
bug('C24','cmd/app/book_op.go','		if err != nil {\n			return fmt.Errorf("depreciate months','		if err != nil || months > 600 {\n			return fmt.Errorf("depreciate months')
bug('C24','cmd/app/book_op.go','		if !ok {\n','		if !ok || factor.Sign() < 0 {\n')
bug('C12','book/book_utils.go','func (b *Book) RegexCCY(search string, replace string) error {\n','func (b *Book) RegexCCY(search string, replace string) error {\n	if replace == "" {\n		return fmt.Errorf("no currency")\n	}\n')
same('C24','cmd/app/book_op.go','		if d == book.Date(0) {','		if 0 == d {')
same('C24','cmd/app/book_op.go','			if parent == op {\n				return fmt.Errorf("macro \'%s\' includes itself", op)\n			}\n','			if op != parent {\n				continue\n			}\n			return fmt.Errorf("macro \'%s\' includes itself", op)\n')
same('C24','cmd/app/book_op.go','		for _, typ := range book.FloorTypes {','		for i := range book.FloorTypes {\n			typ := book.FloorTypes[i]')
same('C08','book/book.go','	if periods <= 0 {','	if periods < 1 {')
