package fontgen

// Instruction opcodes.
const (
	SVTCA0, SVTCA1, SPVTCA0, SPVTCA1, SFVTCA0, SFVTCA1  = 0, 1, 2, 3, 4, 5
	SPVTL0, SPVTL1, SFVTL0, SFVTL1                      = 6, 7, 8, 9
	SPVFS, SFVFS, GPV, GFV, SFVTPV, ISECT               = 0x0a, 0x0b, 0x0c, 0x0d, 0x0e, 0x0f
	SRP0, SRP1, SRP2, SZP0, SZP1, SZP2, SZPS, SLOOP     = 0x10, 0x11, 0x12, 0x13, 0x14, 0x15, 0x16, 0x17
	RTG, RTHG, SMD, ELSE, JMPR, SCVTCI, SSWCI, SSW      = 0x18, 0x19, 0x1a, 0x1b, 0x1c, 0x1d, 0x1e, 0x1f
	DUP, POP, CLEAR, SWAP, DEPTH, CINDEX, MINDEX        = 0x20, 0x21, 0x22, 0x23, 0x24, 0x25, 0x26
	ALIGNPTS, UTP, LOOPCALL, CALL, FDEF, ENDF           = 0x27, 0x29, 0x2a, 0x2b, 0x2c, 0x2d
	MDAP0, MDAP1, IUP0, IUP1, SHP0, SHP1, SHC0, SHC1    = 0x2e, 0x2f, 0x30, 0x31, 0x32, 0x33, 0x34, 0x35
	SHZ0, SHZ1, SHPIX, IP, MSIRP0, MSIRP1, ALIGNRP      = 0x36, 0x37, 0x38, 0x39, 0x3a, 0x3b, 0x3c
	RTDG, MIAP0, MIAP1, NPUSHB, NPUSHW, WS, RS          = 0x3d, 0x3e, 0x3f, 0x40, 0x41, 0x42, 0x43
	WCVTP, RCVT, GC0, GC1, SCFS, MD0, MD1, MPPEM, MPS   = 0x44, 0x45, 0x46, 0x47, 0x48, 0x49, 0x4a, 0x4b, 0x4c
	FLIPON, FLIPOFF, DEBUG, LT, LTEQ, GT, GTEQ, EQ, NEQ = 0x4d, 0x4e, 0x4f, 0x50, 0x51, 0x52, 0x53, 0x54, 0x55
	ODD, EVEN, IF, EIF, AND, OR, NOT, DELTAP1, SDB, SDS = 0x56, 0x57, 0x58, 0x59, 0x5a, 0x5b, 0x5c, 0x5d, 0x5e, 0x5f
	ADD, SUB, DIV, MUL, ABS, NEG, FLOOR, CEILING        = 0x60, 0x61, 0x62, 0x63, 0x64, 0x65, 0x66, 0x67
	ROUND, NROUND, WCVTF, DELTAP2, DELTAP3              = 0x68, 0x6c, 0x70, 0x71, 0x72
	DELTAC1, DELTAC2, DELTAC3, SROUND, S45ROUND         = 0x73, 0x74, 0x75, 0x76, 0x77
	JROT, JROF, ROFF, RUTG, RDTG, SANGW, AA             = 0x78, 0x79, 0x7a, 0x7c, 0x7d, 0x7e, 0x7f
	FLIPPT, FLIPRGON, FLIPRGOFF, SCANCTRL, SDPVTL0      = 0x80, 0x81, 0x82, 0x85, 0x86
	SDPVTL1, GETINFO, IDEF, ROLL, MAX, MIN, SCANTYPE    = 0x87, 0x88, 0x89, 0x8a, 0x8b, 0x8c, 0x8d
	INSTCTRL, PUSHB, PUSHW, MDRP, MIRP                  = 0x8e, 0xb0, 0xb8, 0xc0, 0xe0
)

// Push is code that pushes values, so that the last one ends up on top. It
// uses bytes if all of them fit, and words otherwise.
func Push(vs ...int) []byte {
	var out []byte
	for len(vs) > 0 {
		k := min(len(vs), 255)
		fit := true
		for _, v := range vs[:k] {
			fit = fit && 0 <= v && v <= 255
		}
		switch {
		case fit && k <= 8:
			out = append(out, byte(PUSHB+k-1))
		case fit:
			out = append(out, NPUSHB, byte(k))
		case k <= 8:
			out = append(out, byte(PUSHW+k-1))
		default:
			out = append(out, NPUSHW, byte(k))
		}
		for _, v := range vs[:k] {
			if !fit {
				out = append(out, byte(v>>8))
			}
			out = append(out, byte(v))
		}
		vs = vs[k:]
	}
	return out
}

// Code concatenates code: ints are opcodes, byte slices and []int (pushed
// values) are code.
func Code(parts ...any) []byte {
	var out []byte
	for _, p := range parts {
		switch p := p.(type) {
		case int:
			out = append(out, byte(p))
		case []byte:
			out = append(out, p...)
		case []int:
			out = append(out, Push(p...)...)
		default:
			panic("bad code part")
		}
	}
	return out
}
