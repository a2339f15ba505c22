// Package xnet replaces the connection makers of package net.
package xnet

import (
	"net"
	"time"

	"verifsim/simrt"
)

func Listen(network, addr string) (net.Listener, error) {
	l, err := simrt.CurProc().Net.Listen(addr)
	if err != nil {
		return nil, err
	}
	return l, nil
}
func Dial(network, addr string) (net.Conn, error) { return simrt.CurProc().Net.Dial(addr) }
func DialTimeout(network, addr string, d time.Duration) (net.Conn, error) {
	return simrt.CurProc().Net.Dial(addr)
}
func Pipe() (net.Conn, net.Conn) { return simrt.CurProc().Net.Pipe("pipe", "pipe") }
