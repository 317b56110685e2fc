module gopfcheck

go 1.23
