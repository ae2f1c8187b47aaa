id = "c24-save-trunc"
property = "C24"
lang = "go"
edits = [("pkg/config/config.go", "os.O_WRONLY|os.O_CREATE|os.O_TRUNC", "os.O_WRONLY|os.O_CREATE")]
needs = "saving a configuration over a longer one"
breaks = "the end of the longer configuration stays behind the new one, and the file cannot be loaded"
demo = '''package main

import (
	"os"
	"reflect"

	"github.com/gostor/gotgt/pkg/config"
)

func main() {
	f := os.Args[1] + "/config.json"
	long := &config.Config{ISCSITargets: map[string]config.ISCSITarget{}}
	for i := 0; i < 10; i++ {
		long.Storages = append(long.Storages, config.BackendStorage{DeviceID: uint64(i), Path: "file:/nowhere", Online: true})
	}
	short := &config.Config{ISCSITargets: map[string]config.ISCSITarget{}, Storages: long.Storages[:1]}
	for _, c := range []*config.Config{long, short} {
		check(c.Save(f) == nil, "save")
		l, err := config.Load(os.Args[1])
		check(err == nil && reflect.DeepEqual(l.Storages, c.Storages), "loaded %v of %v, %v", len(l.Storages), len(c.Storages), err)
	}
}
'''
