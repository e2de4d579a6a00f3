package main

import "syscall"

// bytes waiting on the socket (1 also for a closed connection)
func peek(fd int) int {
	b := make([]byte, 1)
	n, _, err := syscall.Recvfrom(fd, b, syscall.MSG_PEEK|syscall.MSG_DONTWAIT)
	if err == syscall.EAGAIN || err == syscall.EWOULDBLOCK {
		return 0
	}
	if err != nil || n == 0 {
		return 1
	}
	return n
}
