module zzverif/vsync

go 1.20
