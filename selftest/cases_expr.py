# The expression used is the one given
bug('C24','cmd/register/register.go','		re, err := regexp.Compile(arg)','		re, err := regexp.Compile("(?i)" + arg)')
bug('C24','cmd/register/register.go','regexp.Compile("^" + regexp.QuoteMeta(acct) + "$")','regexp.Compile(regexp.QuoteMeta(acct) + "$")')
bug('C24','cmd/register/register.go','regexp.Compile("^" + regexp.QuoteMeta(acct) + "$")','regexp.Compile("^" + acct + "$")')
bug('C24','cmd/reports/report.go','regexp.Compile(report.Credit)','regexp.Compile("^" + report.Credit)')
bug('C31','book/book.go','	re, err := regexp.Compile(reg)','	re, err := regexp.Compile("(?i)" + reg)')
bug('C12','book/book_utils.go','	re, err := regexp.Compile(search)','	re, err := regexp.Compile("^" + search)')
bug('C08','book/book.go','	re, err := regexp.Compile(search_acct)\n	if err != nil {\n		return fmt.Errorf("invalid account regex \'%s\': %w", search_acct, err)\n	}\n	var','	re, err := regexp.Compile("(?i)" + search_acct)\n	if err != nil {\n		return fmt.Errorf("invalid account regex \'%s\': %w", search_acct, err)\n	}\n	var')
bug('C38','cmd/reports/report.go','regexp.Compile(report.Credit)','regexp.Compile("^" + report.Credit)')
bug('C38','cmd/reports/report.go','creditre, report.Hidden)','creditre, strings.TrimSpace(report.Hidden))','cmd/reports/report.go','	"regexp"\n','	"regexp"\n	"strings"\n')
bug('C24','cmd/reports/report.go','	if report.Type != "Beancount" && report.Convert {\n		if app.BaseCCY == "" {','	if app.BaseCCY == "" && report.Type == "Text" {\n		return fmt.Errorf("no currency")\n	}\n	if report.Type != "Beancount" && report.Convert {\n		if app.BaseCCY == "" {')
bug('C24','cmd/register/register.go','	if len(args) > 1 {','	if len(args) > 4 {\n		return fmt.Errorf("too many operations")\n	}\n	if len(args) > 1 {')
same('C24,C38','cmd/reports/report.go','	if report.Type != "Beancount" && report.Sum {\n		if app.BaseCCY == "" {','	sum := report.Sum && report.Type != "Beancount"\n	if sum {\n		if len(app.BaseCCY) == 0 {')
