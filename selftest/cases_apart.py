A='book/builder.go'
bug('C04',A,'		key = fmt.Sprintf("%d %s", date, b.currPayee)\n	}','		key = fmt.Sprintf("%d %s", date, payee)\n		if idx > 2 {\n			b.prevTrans[key] = true\n			break\n		}\n	}')
bug('C04',A,'fmt.Sprintf("%d %s", date, b.currPayee)\n	for','fmt.Sprintf("%d%s", date, b.currPayee)\n	for',A,'fmt.Sprintf("%d %s", date, b.currPayee)\n	}','fmt.Sprintf("%d%s", date, b.currPayee)\n	}')
bug('C04',A,'fmt.Sprintf("%d %s", date, b.currPayee)\n	for','b.currPayee\n	for',A,'fmt.Sprintf("%d %s", date, b.currPayee)\n	}','b.currPayee\n	}')
bug('C04',A,'			b.prevTrans[key] = true\n','			if idx == 1 {\n				b.prevTrans[key] = true\n			}\n')
bug('C04',A,'	b.currNote = note\n','	if note != "" {\n		b.currNote = note\n	}\n')
bug('C04',A,'		tnote: b.currNote,\n','')
bug('C04',A,'		payee: b.currPayee,','		payee: strings.TrimSpace(b.currPayee),')
bug('C04',A,'fmt.Sprintf("%d %s", date, b.currPayee)\n	for','fmt.Sprintf("%d %s", date/100, b.currPayee)\n	for',A,'fmt.Sprintf("%d %s", date, b.currPayee)\n	}','fmt.Sprintf("%d %s", date/100, b.currPayee)\n	}')
same('C04',A,'''	idx := 1
	key := fmt.Sprintf("%d %s", date, b.currPayee)
	for {
		_, ok := b.prevTrans[key]
		if !ok {
			b.prevTrans[key] = true
			break
		}

		idx += 1
		b.currPayee = fmt.Sprintf("%s (%d)", payee, idx)
		key = fmt.Sprintf("%d %s", date, b.currPayee)
	}
''','''	name := payee
	for idx := 2; b.prevTrans[fmt.Sprintf("%d/%s", date, name)]; idx++ {
		name = fmt.Sprintf("%s (%d)", payee, idx)
	}
	b.prevTrans[fmt.Sprintf("%d/%s", date, name)] = true
	b.currPayee = name
''')
same('C04',A,'''	prevTrans map[string]bool
''','''	prevTrans map[transKey]bool
''',A,'''type Builder struct''','''type transKey struct {
	date  Date
	payee string
}

type Builder struct''',A,'make(map[string]bool)','make(map[transKey]bool)',A,'fmt.Sprintf("%d %s", date, b.currPayee)\n	for','transKey{date, b.currPayee}\n	for',A,'fmt.Sprintf("%d %s", date, b.currPayee)\n	}','transKey{date, b.currPayee}\n	}')
same('C04',A,'''	idx := 1
	key := fmt.Sprintf("%d %s", date, b.currPayee)
	for {
		_, ok := b.prevTrans[key]
		if !ok {
			b.prevTrans[key] = true
			break
		}

		idx += 1
		b.currPayee = fmt.Sprintf("%s (%d)", payee, idx)
		key = fmt.Sprintf("%d %s", date, b.currPayee)
	}
''','''	for idx := 1; !b.claim(date, b.currPayee); {
		idx++
		b.currPayee = fmt.Sprintf("%s (%d)", payee, idx)
	}
''',A,'''func (b *Builder) AddPosting''','''func (b *Builder) claim(date Date, payee string) bool {
	key := fmt.Sprintf("%d %s", date, payee)
	if b.prevTrans[key] {
		return false
	}
	b.prevTrans[key] = true
	return true
}

func (b *Builder) AddPosting''')
