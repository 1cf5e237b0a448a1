# C25-C30: downloads
J='cmd/utils/json.go'; NT='cmd/download/net.go'; MZ='cmd/download/monzo.go'; SL='cmd/download/starling.go'; ND='cmd/download/nordigen.go'
# C25 state files
bug('C25',J,'	if err := fh.Sync(); err != nil {\n		fh.Close()\n		return fmt.Errorf("failed writing to %s: %v", file, err)\n	}\n','')
bug('C25',J,'os.CreateTemp(filepath.Dir(file), ','os.CreateTemp("", ')
bug('C25',J,'	fh, err := os.CreateTemp(filepath.Dir(file), filepath.Base(file)+".*")','	fh, err := os.Create(file)')
bug('C25',J,'	fh, err := os.CreateTemp(filepath.Dir(file), filepath.Base(file)+".*")','	fh, err := os.OpenFile(file+".tmp", os.O_WRONLY|os.O_CREATE, 0600)')
bug('C25',J,'	fh, err := os.CreateTemp(filepath.Dir(file), filepath.Base(file)+".*")','	fh, err := os.OpenFile(file+".tmp", os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0644)')
bug('C25',J,'	// Write the contents\n','	os.Remove(file)\n	// Write the contents\n')
bug('C25',J,'	if err := writeContents(fh, b, filepath.Ext(file) == ".gz"); err != nil {','	if err := writeContents(fh, b, filepath.Ext(file) == ".gz"); err != nil && !os.IsTimeout(err) {')
bug('C25',J,'	return gwriter.Close()\n','	gwriter.Flush()\n	return nil\n')
bug('C25',J,'filepath.Ext(file) == ".gz")','false)')
bug('C25',J,'		if os.IsNotExist(err) {\n			return nil\n		}','		if os.IsNotExist(err) || os.IsPermission(err) {\n			return nil\n		}')
bug('C25',J,'	err = json.Unmarshal(b, data)\n	if err != nil {','	err = json.Unmarshal(b, data)\n	if err != nil && len(b) > 0 {')
bug('C25',J,'	b, err := ioutil.ReadAll(fh)\n','	b, err := ioutil.ReadAll(io.LimitReader(fh, 1<<26))\n')
bug('C25',SL,'	if err := utils.SaveToFile(m.file, &m.data)','	os.Rename(m.file, m.file+".bak")\n	if err := utils.SaveToFile(m.file, &m.data)',SL,'	"net/http"\n','	"net/http"\n	"os"\n')
same('C25',J,'	fh, err := os.CreateTemp(filepath.Dir(file), filepath.Base(file)+".*")','	fh, err := os.OpenFile(file+".tmp", os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0600)',J,'os.Remove(fh.Name())','os.Remove(file + ".tmp")',J,'os.Rename(fh.Name(), file)','os.Rename(file+".tmp", file)')
same('C25,C21',J,'	if err := fh.Close(); err != nil {\n		return fmt.Errorf("failed closing %s: %v", file, err)\n	}\n\n	// Replace the old file\n	if err := os.Rename(fh.Name(), file); err != nil {\n		return fmt.Errorf("failed replacing %s: %v", file, err)\n	}\n\n	return nil\n','	return replace(fh, file)\n',J,'func writeContents(','func replace(fh *os.File, file string) error {\n	name := fh.Name()\n	if err := fh.Close(); err != nil {\n		return fmt.Errorf("failed closing %s: %v", file, err)\n	}\n	if err := os.Rename(name, file); err != nil {\n		return fmt.Errorf("failed replacing %s: %v", file, err)\n	}\n	return nil\n}\n\nfunc writeContents(')
same('C25,C21',J,'	f, err := os.Open(file)\n	if err != nil {\n		if os.IsNotExist(err) {\n			return nil\n		}\n		return fmt','	f, err := os.Open(file)\n	if errors.Is(err, os.ErrNotExist) {\n		return nil\n	}\n	if err != nil {\n		return fmt',J,'	"encoding/json"\n','	"encoding/json"\n	"errors"\n')
same('C25,C27,C26,C30,C28,C29',J,'	// Unmarshal JSON bytes\n	err = json.Unmarshal(b, data)\n	if err != nil {\n		return fmt.Errorf("failed unmarshalling json from %s: %v", file, err)\n	}\n\n	return nil','	// Unmarshal JSON bytes\n	if err = json.Unmarshal(b, data); err == nil {\n		return nil\n	}\n	return fmt.Errorf("failed unmarshalling json from %s: %v", file, err)')
# C26 synchronising
bug('C26',MZ,'		if len(trans.Trans) < LIMIT {','		if len(trans.Trans) <= LIMIT {')
bug('C26',MZ,'created.Add(-1 * time.Second * 60)','created.Add(time.Second * 60)')
bug('C26',MZ,'const DAYS_AGO = 89','const DAYS_AGO = 30')
bug('C26',MZ,'	if since == "" && errors.Is(err, forbidden) {','	if since == "" && !errors.Is(err, forbidden) {')
bug('C26',MZ,'	vals.Add("account_id", accountID)\n','')
bug('C26',MZ,'			m.data.Transactions[t.ID] = t\n','			m.data.Transactions[t.Created] = t\n')
bug('C26',MZ,'			if thisTime.After(created) {\n				created = thisTime\n			}','			created = thisTime')
bug('C26',MZ,'		m.data.Accounts[v.ID] = v\n','		if _, ok := m.data.Accounts[v.ID]; !ok {\n			m.data.Accounts[v.ID] = v\n		}\n')
bug('C26',MZ,'	if m.data.Transactions == nil {\n		m.data.Transactions = make(map[string]*Transaction)\n	}\n','	m.data.Transactions = make(map[string]*Transaction)\n')
bug('C26',MZ,'	for _, acct := range m.data.Accounts {\n		if err','	for _, acct := range m.data.Accounts {\n		if len(m.data.Transactions) > 0 {\n			break\n		}\n		if err')
bug('C26',SL,'ttime.AddDate(0, 0, -1*STARLING_DAYS_AGO)','ttime.AddDate(0, 0, STARLING_DAYS_AGO)')
bug('C26',SL,'const STARLING_DAYS_AGO = 20','const STARLING_DAYS_AGO = 2')
bug('C26',SL,'		if err := m.syncFeed(acct, spendingSpace.Name, spendingSpace.SpaceUid); err != nil {','		if err := m.syncFeed(acct, spendingSpace.Name, spendingSpace.Name); err != nil {')
bug('C26',SL,'			m.data.Accounts[v.AccountUid] = &StarlingAccountData{}\n		}','		}\n		m.data.Accounts[v.AccountUid] = &StarlingAccountData{}')
bug('C26',SL,'	m.data.Payees = p.Payees\n','')
bug('C26',SL,'		feed[item.FeedItemUid] = item\n','		if !ok {\n			feed[item.FeedItemUid] = item\n		}\n')
bug('C26',SL,'	for _, item := range items.FeedItems {\n		curr','	for _, item := range items.FeedItems[1:] {\n		curr')
bug('C26',ND,'= &resp.Transactions.Booked[i]','= &resp.Transactions.Booked[i/2]')
bug('C26',ND,'			acct.Transactions[b.Id] = &','			if ok {\n				continue\n			}\n			acct.Transactions[b.Id] = &')
bug('C26',ND,'			acct = &NordigenAccount{}\n			c.data.Accounts[accountId] = acct\n','			acct = &NordigenAccount{}\n')
bug('C26',ND,'	if err := m.RefreshAccounts(); err != nil {\n		return err\n	}\n\n	fmt.Printf("Saving to file: %v\\n", m.file)\n	if err := utils.SaveToFile(m.file, &m.data); err != nil {\n		return fmt.Errorf("failed saving: %w", err)\n	}','	aerr := m.RefreshAccounts()\n	fmt.Printf("Saving to file: %v\\n", m.file)\n	if err := utils.SaveToFile(m.file, &m.data); err != nil {\n		return fmt.Errorf("failed saving: %w", err)\n	}\n	_ = aerr')
bug('C26',MZ,'		file:   file,\n','		file:   file + ".new",\n')
same('C26',MZ,'		// Map new transactions in\n		var created time.Time\n		for _, t := range trans.Trans {\n			m.data.Transactions[t.ID] = t\n','		// Map new transactions in\n		var created time.Time\n		for i := range trans.Trans {\n			t := trans.Trans[i]\n			m.data.Transactions[t.ID] = t\n')
same('C26',MZ,'			if thisTime.After(created) {\n				created = thisTime\n			}','			if created.Before(thisTime) {\n				created = thisTime\n			}')
same('C26',MZ,'created.Add(-1 * time.Second * 60)','created.Add(-2 * time.Minute)')
same('C26,C27',MZ,'		// Received none -- really done!\n		if len(trans.Trans) == 0 {\n			break\n		}\n','')
same('C26',MZ,'	for _, v := range accts.Accounts {\n		m.data.Accounts[v.ID] = v\n	}\n','	m.keepAccounts(accts.Accounts)\n',MZ,'const LIMIT = 100','func (m *MonzoClient) keepAccounts(accts []*MonzoAccount) {\n	for _, v := range accts {\n		m.data.Accounts[v.ID] = v\n	}\n}\n\nconst LIMIT = 100')
same('C26',SL,'		_, ok := m.data.Accounts[v.AccountUid]\n		if !ok {\n			m.data.Accounts[v.AccountUid] = &StarlingAccountData{}\n		}\n		m.data.Accounts[v.AccountUid].Account = v\n','		d, ok := m.data.Accounts[v.AccountUid]\n		if !ok {\n			d = &StarlingAccountData{}\n			m.data.Accounts[v.AccountUid] = d\n		}\n		d.Account = v\n')
same('C26',ND,'		for i, b := range resp.Transactions.Booked {\n','		for i := range resp.Transactions.Booked {\n			b := &resp.Transactions.Booked[i]\n',ND,'acct.Transactions[b.Id] = &resp.Transactions.Booked[i]','acct.Transactions[b.Id] = b')
# C27 responses
bug('C27',NT,'	if resp.StatusCode != http.StatusOK {','	if resp.StatusCode >= 500 {')
bug('C27',NT,'	defer resp.Body.Close()\n	bodyBytes','	bodyBytes')
bug('C27',NT,'		return fmt.Errorf("url %v: %w", url, forbidden)','		return fmt.Errorf("url %v: %v", url, forbidden)')
bug('C27',NT,'	decoder.DisallowUnknownFields()\n	if err = decoder.Decode(data); err != nil {\n		return fmt.Errorf("decoding \'%v\'','	if err = decoder.Decode(data); err != nil {\n		return fmt.Errorf("decoding \'%v\'')
bug('C27',NT,'	resp, err := client.Get(url)','	resp, err := http.Get(url)')
bug('C27',NT,'	resp, err := client.PostForm(url, pdata)','	resp, err := client.PostForm(url, nil)')
bug('C27',NT,'	if resp.StatusCode == http.StatusForbidden {\n		return fmt.Errorf("url %v: %w", url, forbidden)\n	}\n','	if resp.StatusCode == http.StatusForbidden {\n		return nil\n	}\n')
same('C27,C21,C29',NT,'	if resp.StatusCode == http.StatusForbidden {\n		return fmt.Errorf("url %v: %w", url, forbidden)\n	}\n\n	if resp.StatusCode != http.StatusOK {\n		return fmt.Errorf("url %v: status %v: %s", url, resp.StatusCode, string(bodyBytes))\n	}\n','	switch resp.StatusCode {\n	case http.StatusForbidden:\n		return fmt.Errorf("url %v: %w", url, forbidden)\n	case http.StatusOK:\n	default:\n		return fmt.Errorf("url %v: status %v: %s", url, resp.StatusCode, string(bodyBytes))\n	}\n')
same('C27,C26,C28,C29',NT,'	decoder := json.NewDecoder(bytes.NewReader(bodyBytes))\n	decoder.DisallowUnknownFields()\n	if err = decoder.Decode(data); err != nil {\n		return fmt.Errorf("decoding \'','	if err = decode(bodyBytes, data); err != nil {\n		return fmt.Errorf("decoding \'',NT,'func CaptureCode(','func decode(b []byte, data interface{}) error {\n	decoder := json.NewDecoder(bytes.NewReader(b))\n	decoder.DisallowUnknownFields()\n	return decoder.Decode(data)\n}\n\nfunc CaptureCode(')
# C28 authorisation
bug('C28',MZ,'		if istate != state {\n			return nil, fmt.Errorf("State doesn\'t match!")\n		}\n','		_ = istate\n')
bug('C28',MZ,'		if istate != state {','		if istate != "" && istate != state {')
bug('C28',MZ,'		state := fmt.Sprintf("%x", stateBytes)','		state := fmt.Sprintf("%x", time.Now().Unix())')
bug('C28',MZ,'make([]byte, 16)','make([]byte, 2)')
bug('C28',MZ,'		if _, err := rand.Read(stateBytes); err != nil {\n			return nil, fmt.Errorf("failed generating state: %w", err)\n		}\n		state := fmt.Sprintf("%x", stateBytes)','		state := fmt.Sprintf("%x", stateBytes)\n		if _, err := rand.Read(stateBytes); err != nil {\n			return nil, fmt.Errorf("failed generating state: %w", err)\n		}')
bug('C28',MZ,'		config.Token = tok\n\n		if err := utils.SaveToFile(file, &config); err != nil {\n			return nil, err\n		}\n','		config.Token = tok\n')
bug('C28',MZ,'			config.Token = newToken\n\n			// Save it.\n			if err := utils.SaveToFile(file, &config); err != nil {\n				return nil, fmt.Errorf("failed saving: %w", err)\n			}\n','			config.Token = newToken\n')
bug('C28',MZ,'			config.Token = newToken\n\n			// Save it.\n			if err := utils.SaveToFile(file, &config); err != nil {\n				return nil, fmt.Errorf("failed saving: %w", err)\n			}\n','			// Save it.\n			if err := utils.SaveToFile(file, &config); err != nil {\n				return nil, fmt.Errorf("failed saving: %w", err)\n			}\n			config.Token = newToken\n')
bug('C28',MZ,'	if config.Token.Expiry.Before(time.Now()) {','	if config.Token.Expiry.Before(time.Now().AddDate(0, -1, 0)) {')
bug('C28',MZ,'	if config.Token.Expiry.Before(time.Now()) {','	if time.Now().Before(config.Token.Expiry) {')
bug('C28',MZ,'		ClientSecret: m.ClientSecret,','		ClientSecret: m.ClientID,')
bug('C28',MZ,'http://localhost:%d/", m.Port)','http://localhost:%d/", 12345)')
bug('C28',NT,'	if clientErr != nil {\n		return "", "", clientErr\n	}\n','	_ = clientErr\n')
bug('C28',NT,'len(codes) != 1 || !stateOk || len(states) != 1','len(codes) != 1 || stateOk && len(states) != 1')
bug('C28',NT,'			code = codes[0]\n			state = states[0]\n		}\n		server.Close()\n','			code = codes[0]\n			server.Close()\n			state = states[0]\n			return\n		}\n		server.Close()\n')
bug('C28',NT,'	if err != http.ErrServerClosed {\n		return "", "", err\n	}','	if err != http.ErrServerClosed && port != 0 {\n		fmt.Println(err)\n	}')
bug('C28',SL,'		AccessToken: m.PersonalAccessToken,','		AccessToken: "",')
bug('C28',SL,'oauth2.NewClient(context.Background(), m)','http.DefaultClient',SL,'	"golang.org/x/net/context"\n','')
bug('C28',ND,'time.Now().After(c.data.Token.AccessExpires)','c.data.Token.AccessExpires.After(time.Now())')
bug('C28',ND,'time.Now().Add(time.Second * time.Duration(nToken.AccessExpires))','time.Now().Add(time.Minute * time.Duration(nToken.AccessExpires))')
bug('C28',ND,'			"secret_key": []string{c.config.ClientSecret},','			"secret_key": []string{c.config.ClientID},')
bug('C28',ND,'	if c.data.Token == nil || time.Now().After(c.data.Token.AccessExpires) {','	if c.data.Token == nil {')
bug('C28',ND,'		Source: nclient,','		Source: &StarlingDownload{},')
same('C28,C29,C21',MZ,'		if istate != state {\n			return nil, fmt.Errorf("State doesn\'t match!")\n		}\n\n		tok, err := conf.Exchange(ctx, code)\n		if err != nil {\n			return nil, err\n		}','		var tok *oauth2.Token\n		if istate == state {\n			tok, err = conf.Exchange(ctx, code)\n		} else {\n			err = fmt.Errorf("State doesn\'t match!")\n		}\n		if err != nil {\n			return nil, err\n		}')
same('C28',MZ,'	if config.Token.Expiry.Before(time.Now()) {','	if now := time.Now(); now.After(config.Token.Expiry) {')
same('C28,C26,C29',MZ,'		config.Token = tok\n\n		if err := utils.SaveToFile(file, &config); err != nil {\n			return nil, err\n		}\n','		if err := keep(file, &config, tok); err != nil {\n			return nil, err\n		}\n',MZ,'			config.Token = newToken\n\n			// Save it.\n			if err := utils.SaveToFile(file, &config); err != nil {','			if err := keep(file, &config, newToken); err != nil {',MZ,'const LIMIT = 100','func keep(file string, data *MonzoData, tok *oauth2.Token) error {\n	data.Token = tok\n	return utils.SaveToFile(file, data)\n}\n\nconst LIMIT = 100')
same('C28',NT,'		if !codeOk || len(codes) != 1 || !stateOk || len(states) != 1 {\n			clientErr = fmt.Errorf("Query must specify state and code")\n		} else {\n			code = codes[0]\n			state = states[0]\n		}\n		server.Close()','		defer server.Close()\n		if codeOk && stateOk && len(codes) == 1 && len(states) == 1 {\n			state, code = states[0], codes[0]\n			return\n		}\n		clientErr = fmt.Errorf("Query must specify state and code")')
same('C28',ND,'	if c.data.Token == nil || time.Now().After(c.data.Token.AccessExpires) {','	if c.data.Token == nil || c.data.Token.AccessExpires.Before(time.Now()) {')
# C29 secrets
bug('C29',MZ,'fmt.Printf("Done getting token.\\n")','fmt.Printf("Done getting token %s.\\n", tok.AccessToken)')
bug('C29',MZ,'fmt.Printf("Done getting token.\\n")','fmt.Printf("Done getting token %v.\\n", tok)')
bug('C29',MZ,'fmt.Printf("Refreshed access token.\\n")','fmt.Printf("Refreshed access token: %s\\n", utils.ToJson(&config))')
bug('C29',MZ,'return nil, fmt.Errorf("failed renewing token: %w", err)','return nil, fmt.Errorf("failed renewing token %s: %w", config.Token.RefreshToken, err)')
bug('C29',MZ,'			return nil, fmt.Errorf("State doesn\'t match!")','			return nil, fmt.Errorf("State doesn\'t match for code %s!", code)')
bug('C29',NT,'fmt.Errorf("decoding response from url %v: %w", url, err)','fmt.Errorf("decoding response %s from url %v: %w", bodyBytes, url, err)')
bug('C29',NT,'fmt.Errorf("post url %v: %w", url, err)','fmt.Errorf("post url %v (%v): %w", url, pdata, err)')
bug('C29',NT,'			clientErr = fmt.Errorf("Query must specify state and code")','			clientErr = fmt.Errorf("Query must specify state and code: %v", vals)')
bug('C29',ND,'const NORDIGEN_ENDPOINT = "https:','const NORDIGEN_ENDPOINT = "http:')
bug('C29',MZ,'	ncmd.Flags().Lookup("clientsecret").DefValue = ""','	ncmd.Flags().Lookup("clientid").DefValue = ""')
bug('C29',J,'		return fmt.Errorf("failed marshalling to json %s: %v", file, err)','		return fmt.Errorf("failed marshalling to json %s: %v: %+v", file, err, data)')
bug('C29',SL,'		return fmt.Errorf("failed getting accounts: %s", err)','		return fmt.Errorf("failed getting accounts for %v: %s", *m.config, err)')
bug('C29',ND,'fmt.Printf("accountId: %s\\n", accountId)','fmt.Printf("accountId: %s %v\\n", accountId, c.data.Token)')
same('C29',MZ,'	ncmd.Flags().StringVar(&m.ClientSecret, "clientsecret", m.ClientSecret, "Client Secret for application")\n	ncmd.Flags().Lookup("clientsecret").DefValue = "" // do not show it in help','	flags := ncmd.Flags()\n	flags.StringVar(&m.ClientSecret, "clientsecret", m.ClientSecret, "Client Secret for application")\n	flag := flags.Lookup("clientsecret")\n	flag.DefValue = ""')
same('C29',MZ,'fmt.Printf("Refreshed access token.\\n")','fmt.Printf("Refreshed access token, until %v.\\n", newToken.Expiry)')
same('C29',NT,'fmt.Errorf("reading url %v: %w", url, err)','fmt.Errorf("reading url %v (status %d): %w", url, resp.StatusCode, err)')
# C30 records
bug('C30',MZ,'	if t.Created, err = utils.GetStringValue(t.Data, "created")','	if t.Created, err = utils.GetStringValue(t.Data, "settled")')
bug('C30',MZ,'	return json.Marshal(t.Data)','	return json.Marshal(map[string]interface{}{"id": t.ID, "created": t.Created})')
bug('C30',MZ,'func (t *Transaction) MarshalJSON','func (t *Transaction) Marshal')
bug('C30',MZ,'	if err := json.Unmarshal(b, &t.Data); err != nil {\n		return err\n	}\n','	var short struct{ Id, Created string }\n	if err := json.Unmarshal(b, &short); err != nil {\n		return err\n	}\n	t.Data = map[string]interface{}{"id": short.Id, "created": short.Created}\n')
bug('C30',MZ,'	Accounts     map[string]*MonzoAccount `json:"accounts"`','	Accounts     map[string]*MonzoAccount `json:"transactions"`')
bug('C30',SL,'`json:"feeditems"`','`json:"-"`')
bug('C30',SL,'	Payees []interface{}\n}\n\ntype StarlingClient','	payees []interface{}\n}\n\ntype StarlingClient',SL,'m.data.Payees','m.data.payees')
bug('C30',ND,'	if t.Id, err = utils.GetStringValue(t.Data, "transactionId"); err != nil {\n		return err\n	}\n	return nil','	t.Id, _ = utils.GetStringValue(t.Data, "transactionId")\n	delete(t.Data.(map[string]interface{}), "debtorAccount")\n	return err')
bug('C30',ND,'	if r.Accounts, err = utils.ListToStringList(accountList); err','	if r.Accounts, err = utils.ListToStringList(accountList[:1]); err')
bug('C30',J,'	id, ok := d[key]\n	if !ok {\n		return "", fmt.Errorf("expected key %s missing, got: %s", key, ToJson(data))\n	}\n	i, ok := id.(string)','	id, ok := d[key]\n	if !ok {\n		return "", nil\n	}\n	i, ok := id.(string)')
same('C30',MZ,'	var err error\n	if t.ID, err = utils.GetStringValue(t.Data, "id"); err != nil {\n		return err\n	}\n','	id, err := utils.GetStringValue(t.Data, "id")\n	if err != nil {\n		return err\n	}\n	t.ID = id\n')
same('C30',MZ,'	if acc.ID, err = utils.GetStringValue(acc.Data, "id"); err != nil {\n		return err\n	}\n	return nil','	acc.ID, err = utils.GetStringValue(acc.Data, "id")\n	return err')
same('C30',J,'	s := make([]string, len(lst))\n	ok := true\n	for idx, v := range lst {\n		s[idx], ok = v.(string)\n		if !ok {\n			return []string{}, fmt.Errorf("expected string for idx %d got %v", idx, v)\n		}\n	}\n	return s, nil','	s := make([]string, 0, len(lst))\n	for idx, v := range lst {\n		str, ok := v.(string)\n		if !ok {\n			return []string{}, fmt.Errorf("expected string for idx %d got %v", idx, v)\n		}\n		s = append(s, str)\n	}\n	return s, nil')
same('C28',MZ,'state := fmt.Sprintf("%x", stateBytes)','state := hex.EncodeToString(stateBytes)',MZ,'	"crypto/rand"\n','	"crypto/rand"\n	"encoding/hex"\n')
bug('C28',MZ,'		if _, err := rand.Read(stateBytes); err != nil {','		if _, err := rand.Read(stateBytes[:4]); err != nil {')
N_='cmd/download/nordigen.go'
M_='cmd/download/monzo.go'
bug('C29',N_,'''				return nil, fmt.Errorf("failed refreshing token: %v", err)''' if False else '''			return nil, fmt.Errorf("failed refreshing token: %v", err)''','''			return nil, fmt.Errorf("failed refreshing token: %v: %v", err, url.Values(params).Encode())''')
bug('C29',N_,'''			return nil, fmt.Errorf("failed refreshing token: %v", err)''','''			return nil, fmt.Errorf("failed refreshing token: %v: %v", err, []string{c.data.Token.Access, "x"})''')
bug('C29',M_,'''	vals.Add("expand[]", "merchant")
''','''	vals.Add("expand[]", "merchant")
	vals.Add("secret", m.config.ClientSecret)
''')
same('C29,C28,C27',N_,'''			return nil, fmt.Errorf("failed refreshing token: %v", err)''','''			return nil, fmt.Errorf("failed refreshing token: %v: %v", err, []string{refreshUrl, "x"})''')
