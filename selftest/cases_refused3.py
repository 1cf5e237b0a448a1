# The form the parts of an operation may have
bug('C24','cmd/app/book_op.go','regexp.MustCompile("^/([^/]+)/([^/]+)/$")','regexp.MustCompile("^/([^/]+)/([A-Z]+)/$")')
bug('C24','cmd/app/book_op.go','var map_op = regexp.MustCompile("^/([^/]+)/','var map_op = regexp.MustCompile("^/([^/ ]+)/')
bug('C24','cmd/app/book_op.go','var deprec_op = regexp.MustCompile("^/([^/]+)/([^/]+)/([0-9\\\\.]+)/$")','var deprec_op = regexp.MustCompile("^/([^/]+)/([^/]+)/([1-9])/$")')
bug('C24','cmd/app/book_op.go','var move_op = regexp.MustCompile("^/([^/]+)/([^/]+)/([0-9\\\\.]+)/$")','var move_op = regexp.MustCompile("^/([^/]+)/([^/]+)/([0-9]+)/$")')
bug('C24','cmd/app/book_op.go','var move_op = regexp.MustCompile("^/([^/]+)/([^/]+)/([0-9\\\\.]+)/$")','var move_op = regexp.MustCompile("^/([^/]+)/([^/]+)/([1-9\\\\.]+)/$")')
bug('C24','cmd/app/book_op.go','"^[A-Za-z][0-9A-Za-z_]*="','"^[A-Z][0-9A-Za-z_]*="')
bug('C24','cmd/app/book_op.go','"^[A-Za-z][0-9A-Za-z_]*="','"^[A-Za-z][0-9A-Za-z_]{1,6}="')
bug('C24','cmd/app/book_op.go','(([^/]+)/)?$','(([^/]{1,64})/)?$')
same('C24','cmd/app/book_op.go','var deprec_op = regexp.MustCompile("^/([^/]+)/([^/]+)/([0-9\\\\.]+)/$")','var deprec_op = regexp.MustCompile("^/([^/]+)/([^/]+)/([0-9]+)/$")')
same('C24','cmd/app/book_op.go','var move_op = regexp.MustCompile("^/([^/]+)/([^/]+)/([0-9\\\\.]+)/$")','var move_op = regexp.MustCompile("^/([^/]+)/([^/]+)/([^/]+)/$")')
same('C24','cmd/app/book_op.go','var move_op = regexp.MustCompile("^/([^/]+)/([^/]+)/([0-9\\\\.]+)/$")','var move_op = regexp.MustCompile("^/([^/]+)/([^/]+)/([.\\\\d]+)/$")')
