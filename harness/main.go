package main

import (
	"fmt"
	"os"
	"runtime"
	"strconv"
	"time"
)

func envInt(k string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return d
}

// vdrv worker FAMILY            child process
// vdrv replay FAMILY JOBS OUT   replays the jobs, writes one trace per line
func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vdrv worker|replay|...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "jail":
		jailMain(os.Args[2:])
	case "apisave":
		apiMain(os.Args[2])
	case "worker":
		workerMain(os.Args[2])
	case "replay":
		tr := runJobs(os.Args[2], readJobs(os.Args[3]), envInt("VDRV_WORKERS", runtime.NumCPU()), time.Duration(envInt("VDRV_TIMEOUT", 60))*time.Second)
		writeTraces(os.Args[4], tr)
	default:
		os.Exit(2)
	}
}
