//go:build verifinternal

package xcf

import "vimagination.zapto.org/limage/verifhook"

func init() { getReaderAt = verifhook.GetReaderAt }
