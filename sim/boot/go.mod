module a.boot

go 1.25

require github.com/rs/xid v1.5.0
