package props

import (
	"testing"

	"github.com/trustbloc/vc-go/zzverif/vk"
)

func TestMain(m *testing.M) { vk.Main(m) }
