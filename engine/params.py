"""Specification-level parameters: the SafeCurves primes and curves, and the limb layout."""


class Field(object):
    def __init__(self, key, N, w, n, c, nb):
        self.key = key                    # e.g. e222_117
        self.ty = 'Mod_' + key
        self.mod = 'mod_' + key
        self.N = N                        # limbs
        self.w = w                        # bits per limb
        self.n = n
        self.c = c
        self.t = n - w * (N - 1)          # bits of the canonical top limb
        self.nb = nb
        self.p = 2 ** n - c

    def limbs(self, v):
        out = []
        for i in range(self.N - 1):
            out.append(v & ((1 << self.w) - 1))
            v >>= self.w
        out.append(v)
        return out

    def val(self, limbs):
        return sum(l << (self.w * i) for i, l in enumerate(limbs))

    @property
    def pretty(self):
        return 'safecurves_rust::field::%s::%s' % (self.mod, self.ty)


FIELDS = [
    Field('e221_3', 4, 58, 221, 3, 28), Field('e222_117', 4, 58, 222, 117, 28),
    Field('e251_9', 5, 56, 251, 9, 32), Field('e255_19', 5, 56, 255, 19, 32),
    Field('e382_105', 7, 56, 382, 105, 48), Field('e383_187', 7, 56, 383, 187, 48),
    Field('e414_17', 8, 56, 414, 17, 52), Field('e511_187', 10, 54, 511, 187, 64),
    Field('e521_1', 10, 54, 521, 1, 66)]
F = {f.key: f for f in FIELDS}


class Curve(object):
    def __init__(self, key, rmod, rty, field, d, dconst):
        self.key, self.rmod, self.rty, self.f, self.d, self.dconst = key, rmod, rty, F[field], d, dconst


CURVES = [
    Curve('e222', 'e_222', 'E222', 'e222_117', 160102, 'E222_D'),
    Curve('c1174', 'curve1174', 'Curve1174', 'e251_9', -1174, 'CURVE1174_D'),
    Curve('e382', 'e_382', 'E382', 'e382_105', -67254, 'E382_D'),
    Curve('c41417', 'curve41417', 'Curve41417', 'e414_17', 3617, 'CURVE41417_D'),
    Curve('e521', 'e_521', 'E521', 'e521_1', -376014, 'E521_D')]
C = {c.key: c for c in CURVES}

# Published domain parameters (safecurves.cr.yp.to): name -> value.  Edwards curves x^2+y^2 = 1+d x^2 y^2,
# Montgomery curves y^2 = x^3 + A x^2 + x; cofactor 8 for Montgomery M-221, Curve25519, M-383, Curve383187 (8), M-511 (8),
# 4 for E-222, Curve1174, E-382, E-521 and 8 for Curve41417.
SPEC_CONST = {
    'M221_BASE_X': 4, 'M221_BASE_Y': 1630203008552496124843674615123983630541969261591546559209027208557,
    'M221_ORDER': 421249166674228746791672110734682167926895081980396304944335052891,
    'E222_D': 160102, 'E222_BASE_X': 0x19b12bb156a389e55c9768c303316d07c23adab3736eb2bc3eb54e51, 'E222_BASE_Y': 28,
    'E222_ORDER': 1684996666696914987166688442938726735569737456760058294185521417407,
    'CURVE1174_D': -1174, 'CURVE1174_BASE_X': 0x37fbb0cea308c479343aee7c029a190c021d96a492ecd6516123f27bce29eda,
    'CURVE1174_BASE_Y': 0x6b72f82d47fb7cc6656841169840e0c4fe2dee2af3f976ba4ccb1bf9b46360e,
    'CURVE1174_ORDER': 2 ** 249 - 11332719920821432534773113288178349711,
    'CURVE25519_BASE_X': 9, 'CURVE25519_BASE_Y': 0x20ae19a1b8a086b4e01edd2c7748d14c923d4d7e6d7c61b229e9c5a27eced3d9,
    'CURVE25519_ORDER': 2 ** 252 + 27742317777372353535851937790883648493,
    'E382_D': -67254, 'E382_BASE_X': 0x196f8dd0eab20391e5f05be96e8d20ae68f840032b0b64352923bab85364841193517dbce8105398ebc0cc9470f79603,
    'E382_BASE_Y': 17, 'E382_ORDER': 2 ** 380 - 1030303207694556153926491950732314247062623204330168346855,
    'M383_BASE_X': 12, 'M383_BASE_Y': 4737623401891753997660546300375902576839617167257703725630389791524463565757299203154901655432096558642117242906494,
    'M383_ORDER': 2 ** 380 + 166236275931373516105219794935542153308039234455761613271,
    'CURVE383187_BASE_X': 5, 'CURVE383187_BASE_Y': 4759238150142744228328102229734187233490253962521130945928672202662038422584867624507245060283757321006861735839455,
    'CURVE383187_ORDER': 2 ** 380 + 356080847217269887368687156533236720299699248977882517025,
    'CURVE41417_D': 3617, 'CURVE41417_BASE_X': 0x1a334905141443300218c0631c326e5fcd46369f44c03ec7f57ff35498a4ab4d6d6ba111301a73faa8537c64c4fd3812f3cbc595,
    'CURVE41417_BASE_Y': 34, 'CURVE41417_ORDER': 2 ** 411 - 33364140863755142520810177694098385178984727200411208589594759,
    'M511_BASE_X': 5, 'M511_BASE_Y': 0x2fbdc0ad8530803d28fdbad354bb488d32399ac1cf8f6e01ee3f96389b90c809422b9429e8a43dbf49308ac4455940abe9f1dbca542093a895e30a64af056fa5,
    'M511_ORDER': 2 ** 508 + 10724754759635747624044531514068121842070756627434833028965540808827675062043,
    'E521_D': -376014, 'E521_BASE_X': 0x752cb45c48648b189df90cb2296b2878a3bfd9f42fc6c818ec8bf3c9c0c6203913f6ecc5ccc72434b1ae949d568fc99c6059d0fb13364838aa302a940a2f19ba6c,
    'E521_BASE_Y': 12, 'E521_ORDER': 2 ** 519 - 337554763258501705789107630418782636071904961214051226618635150085779108655765,
}
# constant prefix -> (field, 'edwards' d / 'montgomery' A, cofactor)
SPEC_CURVE = {
    'M221': ('e221_3', 'montgomery', 117050, 8), 'E222': ('e222_117', 'edwards', 160102, 4), 'CURVE1174': ('e251_9', 'edwards', -1174, 4),
    'CURVE25519': ('e255_19', 'montgomery', 486662, 8), 'E382': ('e382_105', 'edwards', -67254, 4), 'M383': ('e383_187', 'montgomery', 2065150, 8),
    'CURVE383187': ('e383_187', 'montgomery', 229969, 8), 'CURVE41417': ('e414_17', 'edwards', 3617, 8), 'M511': ('e511_187', 'montgomery', 530438, 8),
    'E521': ('e521_1', 'edwards', -376014, 4),
}
