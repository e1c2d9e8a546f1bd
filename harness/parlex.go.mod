module github.com/adamcolton/parlex

go 1.23
