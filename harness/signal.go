package main

import (
	"os"
	"os/signal"
	"syscall"
)

func notifyStop(ch chan os.Signal) {
	signal.Notify(ch, syscall.SIGTERM, syscall.SIGINT, syscall.SIGHUP)
}
