S='script/starlark.go'; V='script/convert.go'; I='cmd/importer/import.go'; O='cmd/importer/import_op.go'; P='cmd/importer/starlark.go'
# C11
bug('C11',V,"amt.SetString(strconv.FormatFloat(float64(v), 'g', -1, 64))","amt.SetString(strconv.FormatFloat(float64(v), 'f', 10, 64))")
bug('C11',V,"amt.SetString(strconv.FormatFloat(float64(v), 'g', -1, 64))","amt.SetString(strconv.FormatFloat(float64(v), 'g', -1, 32))")
bug('C11',V,'''		if _, ok := amt.SetString(strconv.FormatFloat(float64(v), 'g', -1, 64)); !ok {
			return nil, fmt.Errorf("invalid amount '%s'", v.String())
		}''','''		if amt.SetFloat64(float64(v)) == nil {
			return nil, fmt.Errorf("invalid amount '%s'", v.String())
		}''','script/convert.go','	"strconv"\n','')
bug('C11',V,'		amt.SetInt(v.BigInt())','		amt.SetInt64(v.BigInt().Int64())')
bug('C11',V,'''		_, ok := amt.SetString(string(v))
		if !ok {''','''		_, ok := amt.SetString(string(v))
		if !ok && v != "" {''')
bug('C11',V,'''	return amt, nil
}''','''	if len(amt.FloatString(0)) > 18 {
		amt.SetInt64(0)
	}
	return amt, nil
}''')
bug('C11',S,'		bbuilder.AddPosting(caccount, ccy2, neg2, "")','		bbuilder.AddPosting(caccount, ccy, neg2, "")')
bug('C11',S,'		bbuilder.AddPosting(caccount, ccy2, neg2, "")','		_ = neg2\n		bbuilder.AddPosting(caccount, ccy2, neg, "")')
bug('C11','book/builder.go','		v.Set(amt)\n','		v = amt\n')
bug('C11',S,'		bbuilder.AddPosting(account, ccy, amt, lnote)','		bbuilder.AddPosting(account, ccy, amt, note)')
bug('C11',S,'amt2.Mul(amt2, big.NewRat(1, int64(denom2)))','amt2.Mul(amt2, big.NewRat(1, int64(denom)))')
bug('C11',S,'		amt.Mul(amt, big.NewRat(1, int64(denom)))\n','		amt.Mul(amt, big.NewRat(1, int64(int16(denom))))\n')
bug('C11',S,'if denom == 0 || denom2 == 0 {','if denom == 0 {')
bug('C11',S,'(amount2 == starlark.None) != (account2 == "")','(amount2 == starlark.None) && (account2 != "")')
bug('C11',S,'if (amount2 == starlark.None) != (account2 == "") {','if (amount2 != starlark.None) && (account2 == "") {')
bug('C11',S,'if ccy == "" || (amount2 != starlark.None && ccy2 == "") {','if ccy == "" && (amount2 == starlark.None || ccy2 == "") {')
bug('C11',S,'		if ndate == book.Date(0) {','		if ndate == book.Date(0) && date == "" {')
bug('C11',S,'''		bbuilder.NewTransaction(ndate, string(desc), note)
		bbuilder.AddPosting(account, ccy, amt, lnote)''','''		bbuilder.NewTransaction(ndate, string(desc), note)
		if amt.Sign() == 0 {
			return starlark.None, nil
		}
		bbuilder.AddPosting(account, ccy, amt, lnote)''')
bug('C11',S,'''		var amt2 *big.Rat
		if amount2 != starlark.None {''','''		var amt2 *big.Rat
		bbuilder.NewTransaction(ndate, string(desc), note)
		if amount2 != starlark.None {''',S,'''		// Make the transaction
		bbuilder.NewTransaction(ndate, string(desc), note)
''','')
bug('C11',S,'		neg := (&big.Rat{}).Neg(amt)','		neg := amt.Neg(amt)')
bug('C11',S,'			"caccount?", &caccount,\n			"note?", &note,\n			"lnote?", &lnote)','			"caccount?", &caccount,\n			"note?", &lnote,\n			"lnote?", &note)')
bug('C11',P,'imp.Account, imp.CCY, imp.CounterAccount','imp.CounterAccount, imp.CCY, imp.Account')
bug('C11',P,'		"data":  idata,','		"data":  starlark.None,')
bug('C11',P,'''	if err != nil {
		return nil, err
	}
''','''	if err != nil && bbuilder == nil {
		return nil, err
	}
''')
bug('C11',S,'''		return fmt.Errorf("running: %w", err)
	}''','''		if !errors.Is(err, os.ErrNotExist) {
			return fmt.Errorf("running: %w", err)
		}
	}''')
same('C11',S,'''		// Set the negative of the amount
		neg := (&big.Rat{}).Neg(amt)

''','',S,'		bbuilder.AddPosting(caccount, ccy, neg, "")','		bbuilder.AddPosting(caccount, ccy, new(big.Rat).Neg(amt), "")')
same('C11',V,'''	var amt *big.Rat = &big.Rat{}
	switch v := amount.(type) {
	case starlark.Float:''','''	amt := new(big.Rat)
	switch v := amount.(type) {
	case starlark.Float:''')
same('C11',V,'''		_, ok := amt.SetString(string(v))
		if !ok {
			return nil, fmt.Errorf("invalid amount '%s'", string(v))
		}
''','''		if n, ok := new(big.Rat).SetString(string(v)); ok {
			return n, nil
		}
		return nil, fmt.Errorf("invalid amount '%s'", string(v))
''')
same('C11',S,'''		// Nothing else to do
		if amount2 == starlark.None {
			return starlark.None, nil
		}

		// Divide by denominator if set
		amt2.Mul(amt2, big.NewRat(1, int64(denom2)))

		// Set the negative of the amount
		neg2 := (&big.Rat{}).Neg(amt2)

		bbuilder.AddPosting(account2, ccy2, amt2, "")
		bbuilder.AddPosting(caccount, ccy2, neg2, "")

		return starlark.None, nil
	}
	return starlark''','''		// Second leg
		if amt2 != nil {
			amt2.Quo(amt2, big.NewRat(int64(denom2), 1))
			addLeg(bbuilder, account2, caccount, ccy2, amt2)
		}

		return starlark.None, nil
	}
	return starlark''',S,'func RunStarlark(','''func addLeg(b *book.Builder, acct, cacct, ccy string, amt *big.Rat) {
	neg := (&big.Rat{}).Neg(amt)
	b.AddPosting(acct, ccy, amt, "")
	b.AddPosting(cacct, ccy, neg, "")
}

func RunStarlark(''')
same('C11',S,'''		if denom == 0 || denom2 == 0 {
			return nil, fmt.Errorf("invalid denominator 0")
		}''','''		for _, d := range []int{denom, denom2} {
			if d == 0 {
				return nil, fmt.Errorf("invalid denominator 0")
			}
		}''') if False else None
same('C11',S,'''		if (amount2 == starlark.None) != (account2 == "") {
			return nil, fmt.Errorf("amt2 and account2 must be specified together")
		}''','''		hasSecond := amount2 != starlark.None
		if hasSecond && account2 == "" || !hasSecond && account2 != "" {
			return nil, fmt.Errorf("amt2 and account2 must be specified together")
		}''')
same('C11,C22',P,'''	// This dictionary defines the pre-declared environment.
	predeclared := starlark.StringDict{
		"data":  idata,
		"file":  starlark.String(file),
		"add":   addf,
		"error": script.Errorf,
	}
''','''	predeclared := make(starlark.StringDict)
	predeclared["error"] = script.Errorf
	predeclared["add"] = addf
	predeclared["file"] = starlark.String(file)
	predeclared["data"] = idata
''')
# C22
bug('C22',V,'''	if _, err := dec.Token(); err == nil {''','''	if !dec.More() {
		return jsonToStarlark(p)
	} else if _, err := dec.Token(); err == nil {''')
bug('C22',V,'''			if sv.Type() == starlark.None.Type() {''','''			if sv.Type() == starlark.None.Type() || !bool(sv.Truth()) {''')
bug('C22',V,'''			newarr[i], err = jsonToStarlark(nv)
			if err != nil {
				return nil, err
			}
		}
		return starlark.NewList(newarr), nil''','''			newarr[len(v)-1-i], err = jsonToStarlark(nv)
			if err != nil {
				return nil, err
			}
		}
		return starlark.NewList(newarr), nil''')
bug('C22',V,'''		newarr := make([]starlark.Value, len(v))
		for i, nv := range v {
			var err error
			newarr[i], err = jsonToStarlark(nv)
			if err != nil {
				return nil, err
			}
		}
''','''		newarr := make([]starlark.Value, 0, len(v))
		for _, nv := range v {
			x, err := jsonToStarlark(nv)
			if err != nil {
				break
			}
			newarr = append(newarr, x)
		}
''')
bug('C22',V,'		return starlark.Float(v), nil','		return starlark.MakeInt(int(v)), nil')
bug('C22',V,'''		for k := range v {
			keys = append(keys, k)''','''		for k := range v {
			if k == "" {
				continue
			}
			keys = append(keys, k)''')
bug('C22',V,'		csvr.ReuseRecord = true','		csvr.ReuseRecord = true\n		csvr.FieldsPerRecord = -1')
bug('C22',V,'		csvr.ReuseRecord = true',"		csvr.ReuseRecord = true\n		csvr.Comment = '#'")
bug('C22',V,'		csvr.ReuseRecord = true','		csvr.ReuseRecord = true\n		csvr.LazyQuotes = true')
bug('C22',V,'				for j, v := range rec {\n					narr[j] = starlark.String(v)','				for j, v := range rec[:len(rec)-1] {\n					narr[j] = starlark.String(v)')
bug('C22',V,'				if len(rec) > len(hdr) {','				if len(rec) > len(hdr)+1 {')
bug('C22',V,'''		nrecs := make([]starlark.Value, len(recs))
		for i, rec := range recs {
			if header {''','''		nrecs := make([]starlark.Value, len(recs))
		for i, rec := range recs {
			if len(rec) == 1 && rec[0] == "" {
				continue
			}
			if header {''')
bug('C22',V,'''		recs, err := csvr.ReadAll()
		if err != nil {
			return nil, fmt.Errorf("csv body: %w", err)
		}''','''		recs, err := csvr.ReadAll()
		if err != nil && len(recs) == 0 {
			return nil, fmt.Errorf("csv body: %w", err)
		}''')
bug('C22',V,'ndict.SetKey(starlark.String(hdr[j]), starlark.String(v))','ndict.SetKey(starlark.String(hdr[len(rec)-1-j]), starlark.String(v))')
bug('C22',O,'	if len([]rune(delim)) != 1 {','	if len([]rune(delim)) > 1 {')
bug('C22',O,'''	header, err := cfg.GetBoolDefault("header", false)''','''	header, err := cfg.GetBoolDefault("header", delim == ",")''')
bug('C22',I,'		if err != nil {\n			return fmt.Errorf("error importing data: %w", err)\n		}','		if err != nil && imports == nil {\n			return fmt.Errorf("error importing data: %w", err)\n		}')
bug('C22',I,'		if arg != "-" {','		if arg != "-" && arg != "" {')
bug('C22',I,'		if err := reports.ShowLedger(bp, b.Transactions()); err != nil {','		if len(prevbooks) > 0 && len(b.Transactions()) == 0 {\n			continue\n		}\n		if err := reports.ShowLedger(bp, b.Transactions()); err != nil {')
bug('C22',I,'	for _, arg := range args {','	for _, arg := range args[:len(args)/2+1] {')
same('C22',V,'''		newarr := make([]starlark.Value, len(v))
		for i, nv := range v {
			var err error
			newarr[i], err = jsonToStarlark(nv)
			if err != nil {
				return nil, err
			}
		}
''','''		newarr := make([]starlark.Value, 0, len(v))
		for i := 0; i < len(v); i++ {
			x, err := jsonToStarlark(v[i])
			if err != nil {
				return nil, err
			}
			newarr = append(newarr, x)
		}
''')
same('C22',V,'''		for _, k := range keys {
			nv := v[k]
			sv, err := jsonToStarlark(nv)
			if err != nil {
				return nil, err
			}
			if sv.Type() == starlark.None.Type() {
				continue
			}
			err = newdict.SetKey(starlark.String(k), sv)
			if err != nil {
				return nil, fmt.Errorf("conversion error - setting key %s to %v", k, nv)
			}
		}
''','''		for _, k := range keys {
			sv, err := jsonToStarlark(v[k])
			if err != nil {
				return nil, err
			}
			if sv != starlark.None {
				if err := newdict.SetKey(starlark.String(k), sv); err != nil {
					return nil, fmt.Errorf("conversion error - setting key %s to %v", k, v[k])
				}
			}
		}
''')
same('C22',V,'''	var p interface{}
	dec := json.NewDecoder(r)
	err := dec.Decode(&p)
	if err != nil {
		return nil, fmt.Errorf("json parsing: %w", err)
	}

	// Nothing is to follow the structure
	if _, err := dec.Token(); err == nil {
		return nil, fmt.Errorf("json parsing: unexpected data after the structure")
	} else if err != io.EOF {
		return nil, fmt.Errorf("json parsing: %w", err)
	}
''','''	var p interface{}
	all, err := ioutil.ReadAll(r)
	if err != nil {
		return nil, fmt.Errorf("json reading: %w", err)
	}
	if err := json.Unmarshal(all, &p); err != nil {
		return nil, fmt.Errorf("json parsing: %w", err)
	}
''',V,'	"io"\n','	"io"\n	"io/ioutil"\n')
same('C22',V,'''		nrecs := make([]starlark.Value, len(recs))
		for i, rec := range recs {
			if header {
				if len(rec) > len(hdr) {
					return nil, fmt.Errorf("found more csv columns (%d) than headers (%d) in row", len(rec), len(hdr))
				}
				ndict := starlark.NewDict(len(rec))
				for j, v := range rec {
					if err := ndict.SetKey(starlark.String(hdr[j]), starlark.String(v)); err != nil {
						return nil, fmt.Errorf("csv row: %w", err)
					}
				}
				nrecs[i] = ndict
			} else {
				narr := make([]starlark.Value, len(rec))
				for j, v := range rec {
					narr[j] = starlark.String(v)
				}
				nrecs[i] = starlark.NewList(narr)
			}
		}

		return starlark.NewList(nrecs), nil
	}
}
''','''		nrecs := make([]starlark.Value, 0, len(recs))
		for _, rec := range recs {
			var nrec starlark.Value
			var err error
			if header {
				nrec, err = rowDict(hdr, rec)
			} else {
				nrec = rowList(rec)
			}
			if err != nil {
				return nil, err
			}
			nrecs = append(nrecs, nrec)
		}

		return starlark.NewList(nrecs), nil
	}
}

func rowDict(hdr, rec []string) (starlark.Value, error) {
	if len(rec) > len(hdr) {
		return nil, fmt.Errorf("found more csv columns (%d) than headers (%d) in row", len(rec), len(hdr))
	}
	ndict := starlark.NewDict(len(rec))
	for j := range rec {
		if err := ndict.SetKey(starlark.String(hdr[j]), starlark.String(rec[j])); err != nil {
			return nil, fmt.Errorf("csv row: %w", err)
		}
	}
	return ndict, nil
}

func rowList(rec []string) starlark.Value {
	narr := []starlark.Value{}
	for _, v := range rec {
		narr = append(narr, starlark.String(v))
	}
	return starlark.NewList(narr)
}
''')
same('C22',I,'''		r := os.Stdin
		if arg != "-" {
			r, err = os.Open(arg)
			if err != nil {
				return fmt.Errorf("error opening %s: %w", arg, err)
			}
			defer r.Close()
		}
''','''		var r *os.File
		switch arg {
		case "-":
			r = os.Stdin
		default:
			if r, err = os.Open(arg); err != nil {
				return fmt.Errorf("error opening %s: %w", arg, err)
			}
			defer r.Close()
		}
''')
same('C22',O,'''	if cfg.ConfigType == "" {
		return nil, fmt.Errorf("missing import type")
	} else if cfg.ConfigType == "csv" {
		return NewCSVBookImporter(cfg)
	} else if cfg.ConfigType == "json" {
		return script.ReadJSON, nil
	} else {
		return nil, fmt.Errorf("invalid import type: %s", cfg.ConfigType)
	}
''','''	switch cfg.ConfigType {
	case "":
		return nil, fmt.Errorf("missing import type")
	case "csv":
		return NewCSVBookImporter(cfg)
	case "json":
		return script.ReadJSON, nil
	}
	return nil, fmt.Errorf("invalid import type: %s", cfg.ConfigType)
''')
