module automut

go 1.16
