package hx

import (
	"os"
	"testing"
)

// Main is every test binary's TestMain.
func Main(m *testing.M) {
	code := m.Run()
	WriteStats()
	Cleanup()
	os.Exit(code)
}
