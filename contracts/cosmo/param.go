package cosmo

// ---------------------------------------------------------------- vocabulary

// growth is (H / H0)^2 at redshift z.
func growth(omegaM, omegaL, z float64) float64 {
	return omegaM*(1+z)*(1+z)*(1+z) + omegaL
}

// okCosmo says that the parameters describe an expanding universe.
func okCosmo(omegaM, omegaL, z float64) bool {
	return omegaM >= 0 && z > -1 && growth(omegaM, omegaL, z) >= 0
}

// rho0 is the critical density today, 3 H0^2 / (8 pi G) for H0 = 100 km/s/Mpc,
// in solar masses per cubic megaparsec.
const rho0 = 2.7753e11

// nearly is equality to one part in a thousand.
func nearly(a, b float64) bool { return 0.999*b <= a && a <= 1.001*b }

// ---------------------------------------------------------------- contracts

//verif:contract HubbleFrac
//verif:property C12
func Contract_HubbleFrac(omegaM, omegaL, z float64) {
	requires(okCosmo(omegaM, omegaL, z))
	h := HubbleFrac(omegaM, omegaL, z)
	ensures("not negative", h >= 0)
	ensures("the square is the sum of the densities", feq(h*h, growth(omegaM, omegaL, z)))
}

//verif:client
//verif:property C12
func Client_HubbleFracToday(omegaM, omegaL float64) {
	requires(omegaM >= 0 && omegaM+omegaL == 1)
	h := HubbleFrac(omegaM, omegaL, 0)
	ensures("one today in a flat universe", feq(h, 1))
}

//verif:contract RhoCritical
//verif:property C12
func Contract_RhoCritical(H0, omegaM, omegaL, z float64) {
	requires(H0 > 0 && okCosmo(omegaM, omegaL, z))
	r := RhoCritical(H0, omegaM, omegaL, z)
	ensures("scales with the square of the Hubble rate", nearly(r, rho0*growth(omegaM, omegaL, z)) || growth(omegaM, omegaL, z) == 0 && r == 0)
	ensures("does not depend on the Hubble constant", feq(r, critUnit()*growth(omegaM, omegaL, z)))
}

// critUnit is the critical density today in the units of const.go.
func critUnit() float64 {
	return 3 * (1e5 / MpcMks) * (1e5 / MpcMks) / (8 * pi * GMks) * MpcMks * MpcMks * MpcMks / MSunMks
}

const pi = 3.14159265358979323846264338327950288419716939937510582097494459

//verif:contract RhoAverage
//verif:property C12
func Contract_RhoAverage(H0, omegaM, omegaL, z float64) {
	requires(H0 > 0 && okCosmo(omegaM, omegaL, z) && omegaM+omegaL >= 0)
	r := RhoAverage(H0, omegaM, omegaL, z)
	a := 1 + z
	ensures("the matter density today scaled by the expansion",
		nearly(r, rho0*(omegaM+omegaL)*omegaM*a*a*a) || r == 0 && (omegaM == 0 || omegaM+omegaL == 0))
	ensures("the matter fraction of the critical density", feq(r, critUnit()*(omegaM+omegaL)*omegaM*a*a*a))
}

func Gen_Contract_HubbleFrac(r *vpRng) (float64, float64, float64) {
	m := r.Float64()
	l := 1 - m
	if r.Intn(2) == 0 {
		l = r.Float64() * 2
	}
	return m, l, r.Float64()*10 - 0.5
}

func Gen_Client_HubbleFracToday(r *vpRng) (float64, float64) {
	m := float64(r.Range(0, 16)) / 16
	return m, 1 - m
}

func Gen_Contract_RhoCritical(r *vpRng) (float64, float64, float64, float64) {
	m, l, z := Gen_Contract_HubbleFrac(r)
	return float64(r.Range(40, 120)), m, l, z
}

func Gen_Contract_RhoAverage(r *vpRng) (float64, float64, float64, float64) {
	return Gen_Contract_RhoCritical(r)
}
