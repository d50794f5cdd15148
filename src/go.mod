module vmon

go 1.24.0
