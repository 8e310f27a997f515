module verifdriver

go 1.24

require github.com/batchatco/go-native-netcdf v0.0.0

require github.com/batchatco/go-thrower v0.0.0-20200827035905-5cb7337f6be6 // indirect

replace github.com/batchatco/go-native-netcdf => /repo
