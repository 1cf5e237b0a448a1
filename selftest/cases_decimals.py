B='book/builder.go'
bug('C33',B,"c <= amt.Denom().BitLen()","c < amt.Denom().BitLen()/2")
bug('C33',B,"c <= amt.Denom().BitLen()","c <= amt.Num().BitLen()")
bug('C33',B,"	for c := 0; c <=","	for c := 1; c <=")
bug('C33',B,"	pow := big.NewInt(1)\n	rem","	pow := big.NewInt(10)\n	rem")
bug('C33',B,"	ten := big.NewInt(10)\n","	ten := big.NewInt(2)\n")
bug('C33',B,"rem.Rem(pow, amt.Denom()).Sign() == 0","rem.Rem(amt.Denom(), pow).Sign() == 0")
bug('C33',B,"rem.Rem(pow, amt.Denom()).Sign() == 0","rem.Set(pow).Cmp(amt.Denom()) >= 0")
bug('C33',B,"			return c, true","			return c - 1, true")
bug('C33',B,"			digits = c + 1","			digits = c")
bug('C33',B,"		if pow.Cmp(amt.Denom()) < 0 {","		if pow.Cmp(amt.Denom()) > 0 {")
bug('C33',B,"	return digits, false","	return digits * 2, false")
bug('C33',B,"	return digits, false","	return digits, true")
bug('C33',B,"!ok || cur < n {","!ok || cur > n {")
bug('C33',B,"!ok || cur < n {","!ok || cur < 0 {")
bug('C33',B,"!ok || cur < n {","ok && cur < n {")
bug('C33',B,"!ok || cur < n {","!ok || cur+1 < n {")
bug('C33',B,"			rmap[p.GetCCY()] = n\n","			rmap[p.GetAccount()] = n\n")
bug('C33',B,"	for _, p := range b.post {\n		n, _ := GetDecimals(p.GetAmount())","	for _, p := range b.post[1:] {\n		n, _ := GetDecimals(p.GetAmount())")
bug('C33',B,"		n, _ := GetDecimals(p.GetAmount())\n","		n, exact := GetDecimals(p.GetAmount())\n		if !exact {\n			continue\n		}\n")
bug('C33',B,"		n, _ := GetDecimals(p.GetAmount())\n","		n, _ := GetDecimals(p.bal)\n")
bug('C33','cmd/reports/report.go',"NewBookPrinter(b.GetCCYDecimals())","NewBookPrinter(nil)")
bug('C33','cmd/app/print.go',"		decs:   decs,\n","		decs:   map[string]int{},\n")
same('C33',B,"			digits = c + 1","			digits++")
same('C33',B,"	ten := big.NewInt(10)\n	pow := big.NewInt(1)\n	rem := big.NewInt(0)\n","	var rem big.Int\n	ten, pow := big.NewInt(10), big.NewInt(1)\n")
same('C33',B,"		if rem.Rem(pow, amt.Denom()).Sign() == 0 {\n			return c, true\n		}\n","		rem.Rem(pow, amt.Denom())\n		if rem.Sign() == 0 {\n			return c, true\n		}\n")
same('C33',B,"rem.Rem(pow, amt.Denom()).Sign() == 0","rem.Mod(pow, amt.Denom()).Cmp(big.NewInt(0)) == 0")
same('C33',B,"		if cur, ok := rmap[p.GetCCY()]; !ok || cur < n {\n			rmap[p.GetCCY()] = n\n		}\n","		cur, ok := rmap[p.GetCCY()]\n		if ok && cur >= n {\n			continue\n		}\n		rmap[p.GetCCY()] = n\n")
same('C33',B,"		if cur, ok := rmap[p.GetCCY()]; !ok || cur < n {\n			rmap[p.GetCCY()] = n\n		}\n","		cur, ok := rmap[p.GetCCY()]\n		if !ok || n > cur {\n			cur = n\n		}\n		rmap[p.GetCCY()] = cur\n")
same('C33',B,"	// Get the largest number of decimals by currency\n	rmap := make(map[string]int)\n	for _, p := range b.post {\n		n, _ := GetDecimals(p.GetAmount())\n		if cur, ok := rmap[p.GetCCY()]; !ok || cur < n {\n			rmap[p.GetCCY()] = n\n		}\n	}\n","	rmap := mostDecimals(b.post)\n",
 B,"// GetDecimals returns","func mostDecimals(post []Posting) map[string]int {\n	rmap := make(map[string]int)\n	for i := range post {\n		n, _ := GetDecimals(post[i].val)\n		if cur, ok := rmap[post[i].ccy]; !ok || cur < n {\n			rmap[post[i].ccy] = n\n		}\n	}\n	return rmap\n}\n\n// GetDecimals returns")
same('C33',B,"	for c := 0; c <= amt.Denom().BitLen(); c++ {","	den := amt.Denom()\n	for c := 0; c <= den.BitLen(); c++ {")
same('C33',B,"	for c := 0; c <= amt.Denom().BitLen(); c++ {","	max := amt.Denom().BitLen()\n	for c := 0; c < max+1; c++ {")
same('C33','cmd/reports/report.go',"	bp := rapp.NewBookPrinter(b.GetCCYDecimals())","	decs := b.GetCCYDecimals()\n	bp := rapp.NewBookPrinter(decs)") if False else None
