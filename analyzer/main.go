package main

import (
	"fmt"
	"os"
	"sort"
)

func main() {
	if len(os.Args) > 1 {
		switch os.Args[1] {
		case "codec":
			codecMain()
			return
		case "job":
			os.Exit(jobMain(os.Args[2:]))
		case "dump":
			dumpMain(os.Args[2:])
			return
		case "list":
			var ids []string
			for id := range checks {
				ids = append(ids, id)
			}
			sort.Strings(ids)
			for _, id := range ids {
				fmt.Println(id)
			}
			return
		case "check":
			os.Exit(runCheck(os.Args[2:]))
		}
	}
	fmt.Fprintln(os.Stderr, "usage: vcol check <property> [--tier=quick|thorough] | list | dump")
	os.Exit(2)
}
