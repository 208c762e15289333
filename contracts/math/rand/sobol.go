package rand

// direction is direction number j of dimension k of a Sobol sequence: the
// recurrence of its primitive polynomial.
func direction(iv [MaxBit * MaxDim]uint32, j, k, deg, poly uint32) uint32 {
	v := iv[MaxDim*(j-deg)+k] ^ (iv[MaxDim*(j-deg)+k] >> deg)
	for l := uint32(1); l < deg; l++ {
		// coefficient l of the polynomial is bit deg-1-l
		if (poly>>(deg-1-l))&1 == 1 {
			v ^= iv[MaxDim*(j-l)+k]
		}
	}
	return v
}

//verif:client
//verif:property C04
func Client_SobolInit() {
	ensures("polynomials and initial numbers", initMDeg == [MaxDim]uint32{1, 2, 3, 3, 4, 4} && initIp == [MaxDim]uint32{0, 1, 1, 2, 1, 4})
	seq := NewSobolSequence()
	ensures("nothing drawn", seq.seqNum == 0 && all(k, 0, 6, seq.ix[k] == 0))
	for k := uint32(0); k < MaxDim; k++ {
		for j := uint32(0); j < initMDeg[k]; j++ {
			ensures("initial direction numbers", seq.iv[MaxDim*j+k] == initIv[MaxDim*j+k]<<(MaxBit-1-j))
		}
		for j := uint32(0); j < MaxBit; j++ {
			ensures("direction number j is an odd multiple of 2^-(j+1)", seq.iv[MaxDim*j+k] < 1<<30 && (seq.iv[MaxDim*j+k]>>(MaxBit-1-j))&1 == 1 && seq.iv[MaxDim*j+k]&(1<<(MaxBit-1-j)-1) == 0)
		}
		for j := initMDeg[k]; j < MaxBit; j++ {
			ensures("recurrence", seq.iv[MaxDim*j+k] == direction(seq.iv, j, k, initMDeg[k], initIp[k]))
		}
	}
}

// lowestZero says that z is the lowest bit of n that is zero.
func lowestZero(n, z uint32) bool { return n&(2<<z-1) == 1<<z-1 }

//verif:client
//verif:property C04
//verif:split dim=0|1|2|3|4|5|6
func Client_SobolNext(n uint32, dim int, ix [MaxDim]uint32) {
	requires(n < (1<<30)-2 && 0 <= dim && dim <= 6)
	seq := NewSobolSequence()
	fresh := NewSobolSequence()
	seq.seqNum, seq.ix = n, ix
	for k := uint32(0); k < MaxDim; k++ {
		requires(ix[k] < 1<<30)
	}
	x := seq.Next(dim)
	ensures("one number per dimension", len(x) == dim)
	ensures("one point further", seq.seqNum == n+1 && all(j, 0, 180, seq.iv[j] == fresh.iv[j]))
	for k := uint32(0); k < MaxDim; k++ {
		if int(k) < dim {
			for z := uint32(0); z < MaxBit; z++ {
				ensures("the point", imp(lowestZero(n+1, z), seq.ix[k] == ix[k]^seq.iv[MaxDim*z+k]))
			}
			ensures("in the unit interval", feq(x[k], float64(seq.ix[k])/1073741824) && 0 <= x[k] && x[k] < 1)
		} else {
			ensures("other dimensions wait", seq.ix[k] == ix[k])
		}
	}
}

//verif:client
//verif:property C04
func Client_SobolRestart(n uint32, ix [MaxDim]uint32) {
	seq := NewSobolSequence()
	fresh := NewSobolSequence()
	seq.seqNum, seq.ix = n, ix
	seq.Init()
	ensures("starts again", seq.seqNum == 0 && all(k, 0, 6, seq.ix[k] == 0) && all(j, 0, 180, seq.iv[j] == fresh.iv[j]))
}

func Gen_Client_SobolNext(r *vpRng) (uint32, int, [MaxDim]uint32) {
	var ix [MaxDim]uint32
	for k := range ix {
		ix[k] = uint32(r.Range(0, 1<<30-1))
	}
	return uint32(r.Range(0, 1<<r.Range(2, 30)-3)), r.Range(0, 6), ix
}
