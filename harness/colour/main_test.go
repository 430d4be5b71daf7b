package colour

import (
	"testing"

	"limageverif/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }
