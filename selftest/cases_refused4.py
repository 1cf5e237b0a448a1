# What a record is refused for
bug('C11','script/starlark.go','		if denom == 0 || denom2 == 0 {','		if denom <= 0 || denom2 == 0 {')
bug('C11','script/starlark.go','		if ndate == book.Date(0) {','		if ndate == book.Date(0) || desc == "" {')
bug('C11','script/starlark.go','(amount2 != starlark.None && ccy2 == "")','ccy2 == ""')
bug('C11','script/starlark.go','		if (amount2 == starlark.None) != (account2 == "") {','		if (amount2 == starlark.None) != (ccy2 == "") {')
bug('C11','script/starlark.go','		if (amount2 == starlark.None) != (account2 == "") {','		if amount2 != starlark.None && (account2 == "" || account2 == account) || amount2 == starlark.None && account2 != "" {')
bug('C11','script/convert.go','		if !ok {\n			return nil, fmt.Errorf("invalid amount \'%s\'", string(v))','		if !ok || amt.Sign() == 0 {\n			return nil, fmt.Errorf("invalid amount \'%s\'", string(v))')
same('C11','script/starlark.go','		if (amount2 == starlark.None) != (account2 == "") {','		if amount2 != starlark.None && account2 == "" || amount2 == starlark.None && account2 != "" {')
same('C11','script/starlark.go','		if (amount2 == starlark.None) != (account2 == "") {','		has := amount2 != starlark.None\n		if has != (account2 != "") {')
same('C11','script/starlark.go','		if (amount2 == starlark.None) != (account2 == "") {','		has, to := amount2 != starlark.None, account2 != ""\n		if has && !to || to && !has {')
same('C11','script/starlark.go','		if (amount2 == starlark.None) != (account2 == "") {','		has, to := amount2 != starlark.None, len(account2) > 0\n		if !(has == to) {')
same('C11','script/starlark.go','		if (amount2 == starlark.None) != (account2 == "") {','		if (amount2 == starlark.None) == (account2 != "") {')
same('C11','script/starlark.go','		if denom == 0 || denom2 == 0 {','		if !(denom != 0 && denom2 != 0) {')
