A='book/book_dedup.go'
I='cmd/importer/import.go'
G='cmd/generate/generate.go'
bug('C13',A,'reftrans[refidx][0].payee == payee && reftrans[refidx][0].date == date','reftrans[refidx][0].date == date')
bug('C13',A,'reftrans[refidx][0].payee == payee && reftrans[refidx][0].date == date','reftrans[refidx][0].payee == payee')
bug('C13',A,'reftrans[refidx][0].date < date {','reftrans[refidx][0].date <= date {')
bug('C13',A,'[0].payee < payee {','[0].payee <= payee {')
bug('C13',A,'			if reftrans[refidx][0].date == date && reftrans[refidx][0].payee < payee {\n				refidx++\n				continue\n			}\n','')
bug('C13',A,'			return false\n','			refidx++\n			return posts == nil\n')
bug('C13',A,'	refidx := 0\n','	refidx := 1\n')
bug('C13',A,'		for refidx < len(reftrans) {','		for refidx < len(reftrans)-1 {')
bug('C13',A,'		if refidx == len(reftrans) {\n			return true','		if refidx == len(reftrans) {\n			return false')
bug('C13',A,'			return false\n		}\n\n		// Otherwise','			return len(posts) != len(reftrans[refidx])\n		}\n\n		// Otherwise')
bug('C13',I,'		if imp.Dedup {\n			b.RemoveDuplicatesOf(main)\n		}\n\n','')
bug('C13',I,'		if imp.Dedup {\n			b.RemoveDuplicatesOf(main)\n		}','		if imp.Dedup && imp.Reclassify {\n			b.RemoveDuplicatesOf(main)\n		}')
bug('C13',I,'		for _, prev := range prevbooks {','		for _, prev := range prevbooks[:len(prevbooks)/2] {')
bug('C13',I,'		prevbooks = append(prevbooks, b)\n','		prevbooks = []*book.Book{b}\n')
bug('C13',I,'			b.RemoveDuplicatesOf(prev)\n','			prev.RemoveDuplicatesOf(b)\n')
bug('C13',I,'		if imp.Dedup {\n			b.RemoveDuplicatesOf(main)\n		}\n','		if imp.Dedup {\n			main.RemoveDuplicatesOf(b)\n		}\n')
bug('C13',G,'	if gen.Dedup {\n','	if !gen.Dedup {\n')
bug('C13',G,'gen.generate(main.Duplicate(), gen.Code)','gen.generate(main, gen.Code)')
bug('C13',I,'		// Add to previous books\n		prevbooks','		// Add to previous books\n		if imp.Dedup {\n			prevbooks',I,'append(prevbooks, b)\n','append(prevbooks, b)\n		}\n')
same('C13',A,'''		// Move forward as much as possible
		for refidx < len(reftrans) {
			if reftrans[refidx][0].date < date {
				refidx++
				continue
			}
			if reftrans[refidx][0].date == date && reftrans[refidx][0].payee < payee {
				refidx++
				continue
			}
			break
		}
''','''		for ; refidx < len(reftrans); refidx++ {
			ref := &reftrans[refidx][0]
			if ref.date > date || (ref.date == date && ref.payee >= payee) {
				break
			}
		}
''')
same('C13',A,'''		// Move forward as much as possible
		for refidx < len(reftrans) {
			if reftrans[refidx][0].date < date {
				refidx++
				continue
			}
			if reftrans[refidx][0].date == date && reftrans[refidx][0].payee < payee {
				refidx++
				continue
			}
			break
		}

		// Skip if at end
		if refidx == len(reftrans) {
			return true
		}

		// If the same, then we have a match. Remove this one.
		if reftrans[refidx][0].payee == payee && reftrans[refidx][0].date == date {
			return false
		}

		// Otherwise keep it.
		return true
''','''		for refidx < len(reftrans) && isBefore(&reftrans[refidx][0], date, payee) {
			refidx++
		}
		return refidx == len(reftrans) || reftrans[refidx][0].payee != payee || reftrans[refidx][0].date != date
''',A,'// Remove transactions from','''func isBefore(p *Posting, date Date, payee string) bool {
	return p.date < date || (p.date == date && p.payee < payee)
}

// Remove transactions from''')
same('C13',A,'''	refidx := 0
''','''	known := make(map[struct {
		d Date
		p string
	}]bool)
	for _, t := range reftrans {
		known[struct {
			d Date
			p string
		}{t[0].date, t[0].payee}] = true
	}
''',A,'''		// Move forward as much as possible
		for refidx < len(reftrans) {
			if reftrans[refidx][0].date < date {
				refidx++
				continue
			}
			if reftrans[refidx][0].date == date && reftrans[refidx][0].payee < payee {
				refidx++
				continue
			}
			break
		}

		// Skip if at end
		if refidx == len(reftrans) {
			return true
		}

		// If the same, then we have a match. Remove this one.
		if reftrans[refidx][0].payee == payee && reftrans[refidx][0].date == date {
			return false
		}

		// Otherwise keep it.
		return true
''','''		return !known[struct {
			d Date
			p string
		}{date, payee}]
''')
same('C13',I,'''		// Deduplication if needed (including previous books)
		if imp.Dedup {
			b.RemoveDuplicatesOf(main)
		}

		// Always deduplicate multiple files
		for _, prev := range prevbooks {
			b.RemoveDuplicatesOf(prev)
		}
''','''		imp.dedup(b, main, prevbooks)
''',I,'''func (imp *ImportDef) add(''','''func (imp *ImportDef) dedup(b *book.Book, main *book.Book, prev []*book.Book) {
	for i := len(prev) - 1; i >= 0; i-- {
		b.RemoveDuplicatesOf(prev[i])
	}
	if !imp.Dedup {
		return
	}
	b.RemoveDuplicatesOf(main)
}

func (imp *ImportDef) add(''')
