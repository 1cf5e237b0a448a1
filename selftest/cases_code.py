# C43: scripts and style sheets
GS='cmd/utils/cli_file_or_str.go'; ST='script/starlark.go'; BO='script/book_op.go'; GG='cmd/generate/generate.go'; HT='cmd/reports/html.go'
bug('C43',GS,'	if !strings.HasPrefix(str, FILE_PREFIX) {\n		return str, nil\n	}\n','	if !strings.HasPrefix(str, FILE_PREFIX) || strings.Contains(str, "\\n") {\n		return str, nil\n	}\n')
bug('C43',GS,'str[len(FILE_PREFIX):len(str)]','strings.ToLower(str[len(FILE_PREFIX):len(str)])')
bug('C43',GS,'	if err != nil {\n		return "", fmt','	if err != nil {\n		return str, nil\n	}\n	if len(b) > 1<<20 {\n		return "", fmt')
bug('C43',GS,'return string(b), nil','return strings.TrimSpace(string(b)), nil')
bug('C43',GS,'const FILE_PREFIX = "file:"','const FILE_PREFIX = "file"')
bug('C43',ST,'strings.ReplaceAll(msg, "\\n", "\\n; ")','msg',ST,'	"strings"\n','')
bug('C43',ST,'strings.ReplaceAll(msg, "\\n", "\\n; ")','strings.Replace(msg, "\\n", "\\n; ", 1)')
bug('C43',ST,'	fmt.Printf("; %s\\n",','	fmt.Fprintf(os.Stderr, "; %s\\n",')
bug('C43',ST,'"code", sc, predeclared)','"code", code, predeclared)',ST,'	sc, err := utils','	_, err := utils')
bug('C43',ST,'	predeclared := starlark.StringDict(globals)','	predeclared := starlark.StringDict{"add": globals["add"], "data": globals["data"]}')
bug('C43',ST,'	return starlark.None, fmt.Errorf("%w: %s", userError, msg)','	if msg == "" {\n			return starlark.None, nil\n		}\n		return starlark.None, fmt.Errorf("%w: %s", userError, msg)')
bug('C43',ST,'fmt.Errorf("%w: %s", userError, msg)','fmt.Errorf("%w: %s", userError, b.Name())')
bug('C43',BO,'RegexAccounts(from, to, alt)','RegexAccounts(from, alt, to)')
bug('C43',BO,'			"alt?", &alt','			"alt?", &from')
bug('C43',BO,'		bb.b.FilterByDateAsof(dstr)','		bb.b.FilterByDateSince(dstr)')
bug('C43',BO,'		return asoff.Bind','		return sincef.Bind')
bug('C43',BO,'	if err := bb.b.RegexAccounts','	if err := bb.b.Duplicate().RegexAccounts')
bug('C43',BO,'var from, to, alt string','var from, to string\n		alt := "Other"')
bug('C43',BO,'		if dstr == book.Date(0) {\n			return starlark.None, fmt.Errorf("invalid date: \'%s\'", date)\n		}\n		bb.b.FilterByDateAsof(dstr)','		if dstr != book.Date(0) {\n			bb.b.FilterByDateAsof(dstr)\n		}')
bug('C43',BO,'			return starlark.None, fmt.Errorf("%w: %v", userError, err)\n		}\n		return val, nil','			return val, nil\n		}\n		return val, nil')
bug('C43',GG,'gen.generate(main.Duplicate(), gen.Code)','gen.generate(main.Duplicate(), strings.TrimSpace(gen.Code))',GG,'import (\n','import (\n	"strings"\n')
bug('C43',HT,'		HTMLCSS, err = utils.GetFileOrStr(HTMLCSS)','		_, err = utils.GetFileOrStr(HTMLCSS)')
bug('C43',HT,'	if HTMLCSS == "" {','	if len(HTMLCSS) < 8 {')
bug('C43',HT,'		if err != nil {\n			return err\n		}\n','		if err != nil {\n			HTMLCSS = styleSheet\n		}\n')
same('C43,C21',GS,'	fname := str[len(FILE_PREFIX):len(str)]','	fname := strings.TrimPrefix(str, FILE_PREFIX)')
same('C43,C21',GS,'	fname := str[len(FILE_PREFIX):len(str)]','	fname := str[5:]')
same('C43,C21',GS,'	if !strings.HasPrefix(str, FILE_PREFIX) {\n		return str, nil\n	}\n\n	fname := str[len(FILE_PREFIX):len(str)]\n\n	b, err := ioutil.ReadFile(fname)\n	if err != nil {\n		return "", fmt.Errorf("reading %s: %w", fname, err)\n	}\n\n	return string(b), nil\n','	if strings.HasPrefix(str, FILE_PREFIX) {\n		fname := str[len(FILE_PREFIX):]\n		b, err := os.ReadFile(fname)\n		if err != nil {\n			return "", fmt.Errorf("reading %s: %w", fname, err)\n		}\n		return string(b), nil\n	}\n	return str, nil\n',GS,'	"io/ioutil"\n','	"os"\n')
same('C43,C21',GS,'	if !strings.HasPrefix(str, FILE_PREFIX) {\n		return str, nil\n	}\n\n	fname := str[len(FILE_PREFIX):len(str)]\n','	fname, named := strings.CutPrefix(str, FILE_PREFIX)\n	if !named {\n		return str, nil\n	}\n')
same('C43,C21',ST,'	fmt.Printf("; %s\\n", strings.ReplaceAll(msg, "\\n", "\\n; "))','	for _, line := range strings.Split(msg, "\\n") {\n		fmt.Printf("; %s\\n", line)\n	}')
same('C43,C21',ST,'	fmt.Printf("; %s\\n", strings.ReplaceAll(msg, "\\n", "\\n; "))','	lines := strings.Split(msg, "\\n")\n	fmt.Println("; " + strings.Join(lines, "\\n; "))')
same('C43,C11,C21',ST,'	// This dictionary defines the pre-declared environment.\n	predeclared := starlark.StringDict(globals)\n','',ST,'"code", sc, predeclared)','"code", sc, globals)')
same('C43,C11,C21',ST,'	thread := &starlark.Thread{\n		Name:  "main",\n		Print: printf,\n	}\n','	thread := new(starlark.Thread)\n	thread.Name = "main"\n	thread.Print = printf\n')
same('C43,C12,C21',BO,'		if err := bb.b.RegexAccounts(from, to, alt); err != nil {\n			return starlark.None, fmt.Errorf("%w: %v", userError, err)\n		}\n		return val, nil','		err := bb.b.RegexAccounts(from, to, alt)\n		if err == nil {\n			return val, nil\n		}\n		return starlark.None, fmt.Errorf("%w: %v", userError, err)')
same('C43,C09,C21',BO,'var mapf = starlark.NewBuiltin("map",\n','func receiver(b *starlark.Builtin) (*starlarkBook, error) {\n	val := b.Receiver()\n	if val == nil {\n		return nil, fmt.Errorf("%w: %s", userError, "unbound method")\n	}\n	bb, ok := val.(*starlarkBook)\n	if !ok {\n		return nil, fmt.Errorf("%w: %s", userError, "bound to not a book")\n	}\n	return bb, nil\n}\n\nvar mapf = starlark.NewBuiltin("map",\n',BO,'		val := b.Receiver()\n		if val == nil {\n			return starlark.None, fmt.Errorf("%w: %s", userError, "unbound method")\n		}\n		bb, ok := val.(*starlarkBook)\n		if !ok {\n			return starlark.None, fmt.Errorf("%w: %s", userError, "bound to not a book")\n		}\n		if err := bb.b.RegexAccounts(from, to, alt); err != nil {\n			return starlark.None, fmt.Errorf("%w: %v", userError, err)\n		}\n		return val, nil','		bb, err := receiver(b)\n		if err != nil {\n			return starlark.None, err\n		}\n		if err := bb.b.RegexAccounts(from, to, alt); err != nil {\n			return starlark.None, fmt.Errorf("%w: %v", userError, err)\n		}\n		return bb, nil')
same('C43,C16,C21',HT,'	if HTMLCSS == "" {\n		HTMLCSS = styleSheet\n	} else {\n		var err error\n		HTMLCSS, err = utils.GetFileOrStr(HTMLCSS)\n		if err != nil {\n			return err\n		}\n	}\n','	css := styleSheet\n	if HTMLCSS != "" {\n		given, err := utils.GetFileOrStr(HTMLCSS)\n		if err != nil {\n			return err\n		}\n		css = given\n	}\n',HT,'</style></head><body>\\n", HTMLCSS)','</style></head><body>\\n", css)')
same('C43,C11',GG,'	b, err := gen.generate(main.Duplicate(), gen.Code)','	code := gen.Code\n	b, err := gen.generate(main.Duplicate(), code)')
