package icon

import (
	"github.com/icon-project/btp/common/crypto"
	"github.com/icon-project/btp/common/errors"
)

func mustKey(b []byte) *crypto.PrivateKey {
	k, err := crypto.ParsePrivateKey(b)
	if err != nil {
		panic(err)
	}
	return k
}

func codeOf(err error) int {
	c, ok := errors.CoderOf(err)
	if !ok {
		return -1
	}
	return int(c.ErrorCode())
}
