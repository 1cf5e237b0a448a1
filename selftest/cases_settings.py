TY = 'cmd/utils/types.go'
CC = 'cmd/utils/cli_config.go'
CF = 'cmd/config.go'
RT = 'cmd/root.go'
RP = 'cmd/reports/report.go'
RG = 'cmd/register/register.go'
EX = 'cmd/export/export.go'
IM = 'cmd/importer/import.go'
IO = 'cmd/importer/import_op.go'
AP = 'cmd/app/app.go'

SETBODY = '''	for _, v := range e.ValidValues {
		if strings.EqualFold(v, value) {
			*e.Value = v
			return nil
		}
	}
	return fmt.Errorf("invalid value '%s', must be one of %s", value, e.Values())
}

// Validate'''
bug('C39', TY, SETBODY, SETBODY.replace('strings.EqualFold(v, value)', 'strings.HasPrefix(strings.ToLower(v), strings.ToLower(value))'))
bug('C39', TY, SETBODY, SETBODY.replace('*e.Value = v', '*e.Value = value'))
bug('C39', TY, SETBODY, SETBODY.replace('range e.ValidValues {', 'range e.ValidValues[1:] {'))
bug('C39', TY, SETBODY, SETBODY.replace('	for _, v', '	*e.Value = value\n	for _, v'))
bug('C39', TY, SETBODY, SETBODY.replace('	return fmt.Errorf("invalid value', '	*e.Value = e.ValidValues[0]\n	return fmt.Errorf("invalid value'))
bug('C39', TY, SETBODY, SETBODY.replace('	for _, v', '	if value == "" {\n		return nil\n	}\n	for _, v'))
bug('C39', TY, 'if *e.Value == "" {', 'if len(*e.Value) < 3 {')
bug('C39', TY, '		return fmt.Errorf("%s: %w", e.Name, err)\n	}\n	return nil', '		*e.Value = e.ValidValues[0]\n	}\n	return nil')
bug('C39', RP, '''		if err := floorType.Validate(); err != nil {
			return err
		}
''', '')
bug('C39', RG, '''		if err := reportType.Validate(); err != nil {
			return err
		}
''', '''		if err := reportType.Validate(); err != nil {
			fmt.Println(err)
		}
''')
bug('C39', RP, '"Text", "Ledger", "Json", "HTML", "Beancount"}', '"Text", "Ledger", "JSON", "HTML", "Beancount"}')
bug('C39', EX, '} else if export.Type == "CSV" {', '} else if export.Type == "Csv" {')
bug('C39', EX, '"Beancount", "CSV"}', '"Beancount", "CSV", "HTML", "Text"}')
bug('C39', CC, 'strings.SplitN(config, ":", 2)', 'strings.Split(config, ":")')
bug('C39', CC, 'argpair := strings.SplitN(arg, "=", 2)', 'argpair := strings.Split(arg, "=")')
bug('C39', CC, '	cfg.Params = make(map[string]string)\n', '	if cfg.Params == nil {\n		cfg.Params = make(map[string]string)\n	}\n')
bug('C39', CC, '= "true"\n', '= ""\n')
bug('C39', CC, '''		_, ok := cfg.Params[argpair[0]]
		if ok {''', '''		o, ok := cfg.Params[argpair[0]]
		if ok && o == "" {''')
bug('C39', CC, 'cfg.Params[argpair[0]] = argpair[1]', 'cfg.Params[strings.ToLower(argpair[0])] = argpair[1]')
bug('C39', CC, '''	} else if supper == "FALSE" {
		return false, nil
	}

	return false, fmt.Errorf("invalid bool '%s'", s)''', '''	} else if supper == "FALSE" {
		return false, nil
	}
	if _, err := fmt.Sscan(s); err != nil {
		return false, fmt.Errorf("invalid bool '%s'", s)
	}
	return false, nil''')
bug('C39', CF, 'if !os.IsNotExist(err) {', 'if os.IsPermission(err) {')
bug('C39', CF, '''		for _, k := range md.Undecoded() {
			return''', '''		for _, k := range md.Undecoded() {
			if len(k) > 1 {
				continue
			}
			return''')
bug('C39', CF, '	if _, err := toml.Decode(DEFAULT_CONFIG_FILE, app); err != nil {', '	if _, err := toml.Decode(DEFAULT_CONFIG_FILE, &Config{}); err != nil {')
bug('C39', CF, 'ioutil.WriteFile(files[0],', 'ioutil.WriteFile(files[len(files)-1],')
bug('C39', CF, 'type =      "Text"', 'type =      "Txt"')
bug('C39', CF, 'combineby = "today"', 'splitby = "today"')
bug('C39', CF, 'count = -100', 'count = "-100"')
bug('C39', RP, 'ncmd.Flags().BoolVar(&report.Sum, "sum", report.Sum,', 'ncmd.Flags().BoolVar(&report.Sum, "sum", report.Convert,')
bug('C39', RP, 'ncmd.Flags().StringVar(&report.Hidden, "hidden", report.Hidden,', 'ncmd.Flags().StringVar(&report.Credit, "hidden", report.Credit,')
bug('C39', RG, '"asc", reg.Asc,', '"asc", true,')
bug('C39', RG, '"begin", reg.BeginDate, "begin date"', '"asof", reg.BeginDate, "begin date"', RG, '"asof", reg.EndDate, "end date"', '"begin", reg.EndDate, "end date"')
bug('C39', AP, '"divider", app.Divider,', '"divider", ":",')
bug('C39', IM, '	if imp.CounterAccount == "" {\n', '	if imp.CounterAccount == "" && imp.Account == "" {\n')
bug('C39', RT, 'report', 'report', RT, 'reports.Add(appCmd, &app.App, &app.Report)', 'reports.Add(appCmd, &app.App, &reports.TransactionReport{})')
bug('C39', RT, '	if err := load("goledger", app); err != nil {\n		return fmt.Errorf("failed loading config: %s", err)\n	}\n', '', RT, '	// Run core app\n', '	if err := load("goledger", app); err != nil {\n		return fmt.Errorf("failed loading config: %s", err)\n	}\n	// Run core app\n')
bug('C39', IO, '"header", false', '"header", true')

same('C39', TY, SETBODY, '''	for i := 0; i < len(e.ValidValues); i++ {
		if v := e.ValidValues[i]; strings.EqualFold(value, v) {
			*e.Value = v
			return nil
		}
	}
	return fmt.Errorf("invalid value '%s', must be one of %s", value, e.Values())
}

// Validate''')
same('C39', TY, SETBODY, '''	at := -1
	for i, v := range e.ValidValues {
		if strings.EqualFold(v, value) {
			at = i
			break
		}
	}
	if at < 0 {
		return fmt.Errorf("invalid value '%s', must be one of %s", value, e.Values())
	}
	*e.Value = e.ValidValues[at]
	return nil
}

// Validate''')
same('C39', TY, SETBODY, '''	v, ok := e.find(value)
	if !ok {
		return fmt.Errorf("invalid value '%s', must be one of %s", value, e.Values())
	}
	*e.Value = v
	return nil
}

func (e *Enum) find(value string) (string, bool) {
	for _, v := range e.ValidValues {
		if strings.EqualFold(v, value) {
			return v, true
		}
	}
	return "", false
}

// Validate''')
same('C39', CC, '''		if len(argpair) != 2 {
			cfg.Params[argpair[0]] = "true"
			continue
		}

		cfg.Params[argpair[0]] = argpair[1]''', '''		value := "true"
		if len(argpair) == 2 {
			value = argpair[1]
		}
		cfg.Params[argpair[0]] = value''')
same('C39', CC, '''		argpair := strings.SplitN(arg, "=", 2)

		_, ok := cfg.Params[argpair[0]]
		if ok {
			return fmt.Errorf("invalid config '%s': arg '%s' set more than once", config, argpair[0])
		}

		if len(argpair) != 2 {
			cfg.Params[argpair[0]] = "true"
			continue
		}

		cfg.Params[argpair[0]] = argpair[1]''', '''		key, value, found := strings.Cut(arg, "=")
		if !found {
			value = "true"
		}
		if _, ok := cfg.Params[key]; ok {
			return fmt.Errorf("invalid config '%s': arg '%s' set more than once", config, key)
		}
		cfg.Params[key] = value''')
same('C39', CC, '''	supper := strings.ToUpper(s)
	if supper == "TRUE" {
		return true, nil
	} else if supper == "FALSE" {
		return false, nil
	}
''', '''	switch strings.ToLower(s) {
	case "true":
		return true, nil
	case "false":
		return false, nil
	}
''')
same('C39', CF, '''		for _, k := range md.Undecoded() {
			return fmt.Errorf("extra config in file %s: %s", file, k.String())
		}
''', '''		if unknown := md.Undecoded(); len(unknown) > 0 {
			return fmt.Errorf("extra config in file %s: %s", file, unknown[0].String())
		}
''')
same('C39', CF, '''			if !os.IsNotExist(err) {
				return fmt.Errorf("%s: %w", file, err)
			}
			continue
''', '''			if os.IsNotExist(err) {
				continue
			}
			return fmt.Errorf("%s: %w", file, err)
''')
same('C39', RP, '''		if err := floorType.Validate(); err != nil {
			return err
		}
		if err := reportType.Validate(); err != nil {
			return err
		}
''', '''		for _, e := range []*utils.Enum{reportType, floorType} {
			if err := e.Validate(); err != nil {
				return err
			}
		}
''')
same('C39', EX, '''	if export.Type == "Json" {
		return bp.PrintJSON(b.Transactions(), export.JsonPretty)
	} else if export.Type == "Beancount" {
		return ShowBeancount(bp, b, app.BaseCCY)
	} else if export.Type == "CSV" {
		return ShowCSV(bp, b)
	} else {
		return ShowLedger(bp, b)
	}
''', '''	switch kind := export.Type; kind {
	case "CSV":
		return ShowCSV(bp, b)
	case "Beancount":
		return ShowBeancount(bp, b, app.BaseCCY)
	case "Json":
		return bp.PrintJSON(b.Transactions(), export.JsonPretty)
	}
	return ShowLedger(bp, b)
''')
