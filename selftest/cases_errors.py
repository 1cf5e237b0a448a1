# C21: failures and output
A='cmd/app/print.go'; RT='cmd/reports/text.go'; RR='cmd/reports/report.go'; AC='cmd/accounts/accounts.go'; CU='cmd/currencies/currencies.go'; EL='cmd/export/ledger.go'; RG='cmd/register/register.go'; J='cmd/utils/json.go'; D='cmd/utils/docs.go'
bug('C21',AC,'		return bp.Err()\n','		return nil\n')
bug('C21',RT,'	b.PrintColumns(rows, fmts)\n\n	return b.Err()','	err := b.Err()\n	b.PrintColumns(rows, fmts)\n\n	return err')
bug('C21',RT,'	b.PrintColumns(rows, fmts)\n\n	return b.Err()','	b.PrintColumns(rows, fmts)\n\n	return nil')
bug('C21',RG,'	return bp.Err()\n','	return nil\n')
bug('C21',EL,'	return b.Err()\n','	if err := b.Err(); err != nil && len(trans) > 0 {\n		return err\n	}\n	return nil\n')
bug('C21',EL,'	b.Printf("\\n; Prices\\n")\n','	err := b.Err()\n	b.Printf("\\n; Prices\\n")\n',EL,'	return b.Err()\n','	return err\n')
bug('C21','cmd/root.go','	if err := load("goledger", app); err != nil {\n		return fmt.Errorf("failed loading config: %s", err)\n	}','	if err := load("goledger", app); err != nil {\n		fmt.Printf("failed loading config: %s", err)\n	}')
bug('C21','cmd/root.go','	if err := appCmd.Execute(); err != nil {\n		return err\n	}\n','	appCmd.Execute()\n')
bug('C21','main.go','os.Exit(1)','os.Exit(0)')
bug('C21','main.go','		fmt.Fprintf(os.Stderr, "%s\\n", err)\n		os.Exit(1)\n','		fmt.Fprintf(os.Stderr, "%s\\n", err)\n')
bug('C21','main.go','		fmt.Fprintf(os.Stderr, "%s\\n", err)\n','		fmt.Fprintf(os.Stderr, "failed\\n")\n')
bug('C21',RR,'	err = app.BookOps(b, args...)\n	if err != nil {\n		return err\n	}\n','	app.BookOps(b, args...)\n')
bug('C21',RR,'	err = app.BookOps(b, args...)\n	if err != nil {\n		return err\n	}\n','	if err := app.BookOps(b, args...); err != nil && app.Verbose {\n		return err\n	}\n')
bug('C21',RR,'		return report.run(app, cmd, args)\n','		report.run(app, cmd, args)\n		return nil\n')
bug('C21',RG,'	if err := rep.FilterByDate(reg.BeginDate, reg.EndDate); err != nil {\n			return err\n		}\n		return Sh','	rep.FilterByDate(reg.BeginDate, reg.EndDate)\n		return Sh')
bug('C21',A,'	b.record(err)\n','')
bug('C21',A,'	b.record(err)\n','	if n == 0 {\n		b.record(err)\n	}\n')
bug('C21',A,'	if b.err == nil {\n		b.err = err\n	}','	b.err = err')
bug('C21',A,'	if b.err == nil {\n		b.err = err\n	}','	if b.err != nil {\n		b.err = err\n	}')
bug('C21',A,'syscall.EPIPE','syscall.ENOSPC')
bug('C21',A,'	if errors.Is(b.err, syscall.EPIPE) {\n','	if errors.Is(b.err, syscall.EPIPE) || errors.Is(b.err, syscall.EIO) {\n')
bug('C21',A,'	return b.pr.Fprintf(b, format, a...)','	return b.pr.Fprintf(b.w, format, a...)')
bug('C21',A,'			b.Write([]byte("\\n"))\n			continue','			b.w.Write([]byte("\\n"))\n			continue')
bug('C21',A,'	n, err := b.w.Write(p)\n	b.record(err)\n	return n, err','	n, err := b.w.Write(p)\n	b.record(err)\n	return n, nil')
bug('C21',A,'	csvwrite := csv.NewWriter(b)\n','	csvwrite := csv.NewWriter(b.w)\n')
bug('C21',A,'	csvwrite.Flush()\n\n	return csvwrite.Error()','	csvwrite.Flush()\n	b.err = nil\n	return csvwrite.Error()')
bug('C21','cmd/config.go','			if !os.IsNotExist(err) {\n				return fmt.Errorf("%s: %w", file, err)\n			}\n			continue','			continue')
bug('C21','cmd/config.go','if !os.IsNotExist(err) {','if !os.IsNotExist(err) && !os.IsPermission(err) {')
bug('C21','cmd/app/app.go','	if err := loader.ParseFile(bbuilder, app.Ledger); err != nil {\n		return nil, err\n	}\n','	if err := loader.ParseFile(bbuilder, app.Ledger); err != nil {\n		fmt.Fprintln(os.Stderr, err)\n	}\n')
bug('C21','cmd/app/app.go','	if err := lesscmd.Start(); err != nil {\n		return w\n	}\n','	lesscmd.Start()\n')
bug('C21',CU,'			if _, err := fmt.Fprintf(cmd.OutOrStdout(), "%s => %d decimals\\n", ccy, decs[ccy]); err != nil {\n				return err\n			}\n','			fmt.Fprintf(cmd.OutOrStdout(), "%s => %d decimals\\n", ccy, decs[ccy])\n')
bug('C21',D,'				err := ioutil.WriteFile(filename, []byte(c.Long+"\\n\\n"), os.ModePerm)\n				if err != nil {\n					return fmt.Errorf("error writing %s: %w", filename, err)\n				}\n','				err = ioutil.WriteFile(filename, []byte(c.Long+"\\n\\n"), os.ModePerm)\n',D,'			return nil\n		} else if *doctype == "yaml"','			return err\n		} else if *doctype == "yaml"')
bug('C21',J,'	return gwriter.Close()\n','	defer gwriter.Close()\n	return nil\n')
bug('C21',J,'			return nil\n		}\n		return fmt.Errorf("failed opening','			return nil\n		}\n		if os.IsPermission(err) {\n			return nil\n		}\n		return fmt.Errorf("failed opening')
bug('C21','cmd/download/monzo.go','	if err := m.GetAllTransactions(acct.ID); err != nil {\n			return fmt.Errorf("failed getting transactions: %v", err)\n		}','	if err := m.GetAllTransactions(acct.ID); err != nil {\n			fmt.Printf("failed getting transactions: %v", err)\n			continue\n		}')
bug('C21','cmd/download/monzo.go','			trans, err = m.getTransactions(accountID, since, LIMIT)\n		}','			trans, _ = m.getTransactions(accountID, since, LIMIT)\n			err = nil\n		}')
bug('C21','cmd/importer/import_op.go','	header, err := cfg.GetBoolDefault("header", false)\n	if err != nil {\n		return nil, fmt.Errorf("invalid header config: %v", err)\n	}\n','	header, _ := cfg.GetBoolDefault("header", false)\n')
bug('C21','loader/lexer.go','	} else if err != nil {\n		rr.stop("read error: %v", err)\n	}\n','	} else if err != nil {\n		r = eof\n	}\n')
bug('C21','script/starlark.go','	_, err = starlark.ExecFile(thread, "code", sc, predeclared)\n	if err != nil {','	_, err = starlark.ExecFile(thread, "code", sc, predeclared)\n	if err != nil && len(globals) == 0 {')
same('C21',A,'	n, err := b.w.Write(p)\n	b.record(err)\n	return n, err','	n, err := b.w.Write(p)\n	if err != nil && b.err == nil {\n		b.err = err\n	}\n	return n, err')
same('C21',A,'	if errors.Is(b.err, syscall.EPIPE) {\n		return nil\n	}\n	return b.err','	err := b.err\n	if err == nil || errors.Is(err, syscall.EPIPE) {\n		return nil\n	}\n	return err')
same('C21','main.go','	if err := cmd.Execute(); err != nil {\n		fmt.Fprintf(os.Stderr, "%s\\n", err)\n		os.Exit(1)\n	}','	err := cmd.Execute()\n	if err == nil {\n		return\n	}\n	fmt.Fprintln(os.Stderr, err)\n	os.Exit(1)')
same('C21',RT,'	b.PrintColumns(rows, fmts)\n\n	return b.Err()','	b.PrintColumns(rows, fmts)\n	if err := b.Err(); err != nil {\n		return err\n	}\n	return nil')
same('C21',EL,'	b.Printf("\\n; Prices\\n")\n','	prices(b)\n',EL,'func ShowLedger(','func prices(b *app.BookPrinter) {\n	b.Printf("\\n; Prices\\n")\n}\n\nfunc ShowLedger(')
same('C21',EL,'		for _, p := range posts {\n			pnote','		if err := b.Err(); err != nil {\n			return err\n		}\n		for _, p := range posts {\n			pnote')
same('C21','cmd/config.go','			if !os.IsNotExist(err) {\n				return fmt.Errorf("%s: %w", file, err)\n			}\n			continue','			if os.IsNotExist(err) {\n				continue\n			}\n			return fmt.Errorf("%s: %w", file, err)')
same('C21','cmd/root.go','	if err := appCmd.Execute(); err != nil {\n		return err\n	}\n\n	return nil','	return appCmd.Execute()')
same('C21',RG,'	for _, acct := range accts {\n','	var rerr error\n	for _, acct := range accts {\n',RG,'		if err := ShowReport(bp, rep, reg.Type, reg.Count, reg.Asc, false, true); err != nil {\n			return fmt.Errorf("error writing report \'%s\': %w", acct, err)\n		}\n','		rerr = ShowReport(bp, rep, reg.Type, reg.Count, reg.Asc, false, true)\n		if rerr != nil {\n			break\n		}\n',RG,'	return bp.Err()\n','	if rerr != nil {\n		return fmt.Errorf("error writing report: %w", rerr)\n	}\n	return bp.Err()\n')
same('C21',J,'	gwriter := gzip.NewWriter(w)\n	if _, err := gwriter.Write(b); err != nil {\n		return err\n	}\n	return gwriter.Close()','	gwriter := gzip.NewWriter(w)\n	_, err := gwriter.Write(b)\n	if cerr := gwriter.Close(); err == nil {\n		err = cerr\n	}\n	return err')
