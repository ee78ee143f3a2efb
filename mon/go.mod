module mon

go 1.23
