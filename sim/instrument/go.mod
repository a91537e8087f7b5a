module verifsim/instrument

go 1.23
