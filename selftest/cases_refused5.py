# What an import is refused for
bug('C22','script/convert.go','				if len(rec) > len(hdr) {','				if len(rec) > len(hdr) || len(rec) == 1 {')
bug('C22','script/convert.go','		nrecs := make([]starlark.Value, len(recs))\n','		if len(recs) == 0 {\n			return nil, fmt.Errorf("no rows")\n		}\n		nrecs := make([]starlark.Value, len(recs))\n')
bug('C22','script/convert.go','	s, err := jsonToStarlark(p)\n','	if p == nil {\n		return nil, fmt.Errorf("nothing")\n	}\n	s, err := jsonToStarlark(p)\n')
bug('C22','script/convert.go','	} else if err != io.EOF {\n		return nil','	} else {\n		return nil')
bug('C22','cmd/importer/import_op.go','	if len([]rune(delim)) != 1 {','	if len([]rune(delim)) != 1 || delim == "|" {')
bug('C22','cmd/importer/import_op.go','	} else if cfg.ConfigType == "json" {','	} else if cfg.ConfigType == "json" && len(cfg.String()) < 20 {')
bug('C22','cmd/importer/import.go','		if err != nil {\n			return fmt.Errorf("error importing','		if err != nil || len(arg) == 1 {\n			return fmt.Errorf("error importing')
same('C22','script/convert.go','				if len(rec) > len(hdr) {','				if len(hdr) < len(rec) {')
same('C22','script/convert.go','	if _, err := dec.Token(); err == nil {\n		return nil, fmt.Errorf("json parsing: unexpected data after the structure")\n	} else if err != io.EOF {\n		return nil, fmt.Errorf("json parsing: %w", err)\n	}\n','	_, err = dec.Token()\n	if err != io.EOF {\n		if err == nil {\n			return nil, fmt.Errorf("json parsing: unexpected data after the structure")\n		}\n		return nil, fmt.Errorf("json parsing: %w", err)\n	}\n')
same('C22','script/convert.go','	if _, err := dec.Token(); err == nil {\n		return nil, fmt.Errorf("json parsing: unexpected data after the structure")\n	} else if err != io.EOF {\n		return nil, fmt.Errorf("json parsing: %w", err)\n	}\n','	if _, err := dec.Token(); err != io.EOF {\n		return nil, fmt.Errorf("json parsing: unexpected data after the structure: %v", err)\n	}\n')
same('C22','cmd/importer/import_op.go','	if len([]rune(delim)) != 1 {','	if n := len([]rune(delim)); n < 1 || n > 1 {')
same('C22','cmd/importer/import_op.go','	if cfg.ConfigType == "" {\n		return nil, fmt.Errorf("missing import type")\n	} else if cfg','	if cfg')
# What an operation of a script is refused for
bug('C43','script/book_op.go','		if dstr == book.Date(0) {','		if dstr == book.Date(0) || len(date) != 10 {')
bug('C43','script/book_op.go','		if err := bb.b.RegexAccounts(','		if to == "" && alt == "" {\n			return starlark.None, fmt.Errorf("nothing to do")\n		}\n		if err := bb.b.RegexAccounts(')
bug('C43','script/starlark.go','	sc, err := utils.GetFileOrStr(code)\n	if err != nil {','	sc, err := utils.GetFileOrStr(code)\n	if err != nil || sc == "" {')
same('C43','script/book_op.go','		val := b.Receiver()\n		if val == nil {\n			return starlark.None, fmt.Errorf("%w: %s", userError, "unbound method")\n		}\n		bb, ok := val.(*starlarkBook)\n		if !ok {','		val := b.Receiver()\n		bb, ok := val.(*starlarkBook)\n		if !ok {')
