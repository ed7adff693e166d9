//go:build race

package e2e

const raceBuild = true
