package main

import (
	"fmt"
	"os"
)

func main() {
	// the node prints a lot; keep the real stdout for results
	realOut := os.Stdout
	if os.Getenv("VERIF_NOISE") == "" {
		devnull, _ := os.OpenFile("/dev/null", os.O_WRONLY, 0)
		os.Stdout = devnull
	}
	switch os.Args[1] {
	case "ledger":
		cmdLedger(os.Args[2:])
	case "miner":
		cmdMiner(os.Args[2:])
	case "pubsub":
		cmdPubsub(os.Args[2:])
	case "peers":
		cmdPeers(os.Args[2:])
	case "admin":
		cmdAdmin(os.Args[2:])
	case "adminproc":
		cmdAdminProc(os.Args[2:])
	case "wallet":
		cmdWallet(os.Args[2:])
	case "cli":
		cmdCli(os.Args[2:])
	case "cliwallet":
		cmdCliWallet(os.Args[2:])
	case "ident":
		cmdIdent(os.Args[2:])
	case "net":
		cmdNet(os.Args[2:])
	case "frames":
		cmdFrames(os.Args[2:])
	default:
		fmt.Fprintln(os.Stderr, "unknown command", os.Args[1])
		os.Exit(3)
	}
	fmt.Fprintln(realOut, "DONE")
}
