package main

import (
	"bytes"
	"fmt"
	"os"
	"reflect"
	"runtime"
	"sync"
	"sync/atomic"

	"github.com/funny-falcon/go-iproto/marshal"
)

func main() {
	runtime.GOMAXPROCS(8)
	const G = 8
	for round := 0; round < 3000; round++ {
		var fs []reflect.StructField
		for i := 0; i < 12; i++ {
			fs = append(fs, reflect.StructField{Name: fmt.Sprintf("F%d_%d", round, i), Type: reflect.TypeOf(uint32(0))})
		}
		v := reflect.New(reflect.StructOf(fs)).Elem()
		var want []byte
		for i := 0; i < 12; i++ {
			v.Field(i).SetUint(uint64(i))
			want = append(want, byte(i), 0, 0, 0)
		}
		x := v.Interface()
		var wg sync.WaitGroup
		var start int32
		for g := 0; g < G; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if e := recover(); e != nil {
						fmt.Println("FAIL: panic:", e)
						os.Exit(1)
					}
				}()
				atomic.AddInt32(&start, 1)
				for atomic.LoadInt32(&start) < G {
				}
				if got := marshal.Write(x); !bytes.Equal(got, want) {
					fail("encoded as % x", got)
				}
			}()
		}
		wg.Wait()
	}
	ok()
}
