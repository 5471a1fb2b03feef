module willowinstr

go 1.23
