"""High-symmetry points and recommended paths as published.

HPKOT: Hinuma et al. 2017, Tables 69-94 (relative to the reciprocal primitive vectors).
SC:    Setyawan and Curtarolo 2010, Tables 2-21.

Every entry: "parameter=expression; ..." and "LABEL k1 k2 k3; ...", expressions of the
conventional lengths a, b, c and of the cosine/sine of the one oblique angle (co, si).
"""
import math

_G = "GAMMA 0 0 0; "

HPKOT = {
    "cP": ("", _G + "R 1/2 1/2 1/2; M 1/2 1/2 0; X 0 1/2 0; X1 1/2 0 0"),
    "cF": ("", _G + "X 1/2 0 1/2; L 1/2 1/2 1/2; W 1/2 1/4 3/4; W2 3/4 1/4 1/2; K 3/8 3/8 3/4; U 5/8 1/4 5/8"),
    "cI": ("", _G + "H 1/2 -1/2 1/2; P 1/4 1/4 1/4; N 0 0 1/2"),
    "tP": ("", _G + "Z 0 0 1/2; M 1/2 1/2 0; A 1/2 1/2 1/2; R 0 1/2 1/2; X 0 1/2 0"),
    "tI1": ("e=(1+c*c/(a*a))/4",
            _G + "M -1/2 1/2 1/2; X 0 0 1/2; P 1/4 1/4 1/4; Z e e -e; Z0 -e 1-e e; N 0 1/2 0"),
    "tI2": ("e=(1+a*a/(c*c))/4; z=a*a/(2*c*c)",
            _G + "M 1/2 1/2 -1/2; X 0 0 1/2; P 1/4 1/4 1/4; N 0 1/2 0; S0 -e e e; S e 1-e -e; R -z z 1/2; G 1/2 1/2 -z"),
    "oP": ("", _G + "X 1/2 0 0; Z 0 0 1/2; U 1/2 0 1/2; Y 0 1/2 0; S 1/2 1/2 0; T 0 1/2 1/2; R 1/2 1/2 1/2"),
    "oF1": ("z=(1+a*a/(b*b)-a*a/(c*c))/4; e=(1+a*a/(b*b)+a*a/(c*c))/4",
            _G + "T 1 1/2 1/2; Z 1/2 1/2 0; Y 1/2 0 1/2; SIGMA0 0 e e; U0 1 1-e 1-e; A0 1/2 1/2+z z; "
            "C0 1/2 1/2-z 1-z; L 1/2 1/2 1/2"),
    "oF2": ("z=(1+c*c/(a*a)-c*c/(b*b))/4; e=(1+c*c/(a*a)+c*c/(b*b))/4",
            _G + "T 0 1/2 1/2; Z 1/2 1/2 1; Y 1/2 0 1/2; LAMBDA0 e e 0; Q0 1-e 1-e 1; G0 1/2-z 1-z 1/2; "
            "H0 1/2+z z 1/2; L 1/2 1/2 1/2"),
    "oF3": ("e=(1+a*a/(b*b)-a*a/(c*c))/4; d=(1+b*b/(a*a)-b*b/(c*c))/4; f=(1+c*c/(b*b)-c*c/(a*a))/4",
            _G + "T 0 1/2 1/2; Z 1/2 1/2 0; Y 1/2 0 1/2; A0 1/2 1/2+e e; C0 1/2 1/2-e 1-e; B0 1/2+d 1/2 d; "
            "D0 1/2-d 1/2 1-d; G0 f 1/2+f 1/2; H0 1-f 1/2-f 1/2; L 1/2 1/2 1/2"),
    "oI1": ("z=(1+a*a/(c*c))/4; e=(1+b*b/(c*c))/4; d=(b*b-a*a)/(4*c*c); m=(a*a+b*b)/(4*c*c)",
            _G + "X 1/2 1/2 -1/2; S 1/2 0 0; R 0 1/2 0; T 0 0 1/2; W 1/4 1/4 1/4; SIGMA0 -z z z; F2 z 1-z -z; "
            "Y0 e -e e; U0 1-e e -e; L0 -m m 1/2-d; M0 m -m 1/2+d; J0 1/2-d 1/2+d -m"),
    "oI2": ("z=(1+b*b/(a*a))/4; e=(1+c*c/(a*a))/4; d=(c*c-b*b)/(4*a*a); m=(b*b+c*c)/(4*a*a)",
            _G + "X -1/2 1/2 1/2; S 1/2 0 0; R 0 1/2 0; T 0 0 1/2; W 1/4 1/4 1/4; Y0 z -z z; U2 -z z 1-z; "
            "LAMBDA0 e e -e; G2 -e 1-e e; K 1/2-d -m m; K2 1/2+d m -m; K4 -m 1/2-d 1/2+d"),
    "oI3": ("z=(1+c*c/(b*b))/4; e=(1+a*a/(b*b))/4; d=(a*a-c*c)/(4*b*b); m=(c*c+a*a)/(4*b*b)",
            _G + "X 1/2 -1/2 1/2; S 1/2 0 0; R 0 1/2 0; T 0 0 1/2; W 1/4 1/4 1/4; SIGMA0 -e e e; F0 e -e 1-e; "
            "LAMBDA0 z z -z; G0 1-z -z z; V0 m 1/2-d -m; H0 -m 1/2+d m; H2 1/2+d -m 1/2-d"),
    "oC1": ("z=(1+a*a/(b*b))/4",
            _G + "Y -1/2 1/2 0; T -1/2 1/2 1/2; Z 0 0 1/2; S 0 1/2 0; R 0 1/2 1/2; SIGMA0 z z 0; C0 -z 1-z 0; "
            "A0 z z 1/2; E0 -z 1-z 1/2"),
    "oC2": ("z=(1+b*b/(a*a))/4",
            _G + "Y 1/2 1/2 0; T 1/2 1/2 1/2; T2 1/2 1/2 -1/2; Z 0 0 1/2; Z2 0 0 -1/2; S 0 1/2 0; R 0 1/2 1/2; "
            "R2 0 1/2 -1/2; DELTA0 -z z 0; F0 z 1-z 0; B0 -z z 1/2; B2 -z z -1/2; G0 z 1-z 1/2; G2 z 1-z -1/2"),
    "oA1": ("z=(1+b*b/(c*c))/4", "=oC1"),
    "oA2": ("z=(1+c*c/(b*b))/4", "=oC2"),
    "hP": ("", _G + "A 0 0 1/2; K 1/3 1/3 0; H 1/3 1/3 1/2; H2 1/3 1/3 -1/2; M 1/2 0 0; L 1/2 0 1/2"),
    "hR1": ("d=a*a/(4*c*c); e=5/6-2*d; n=1/3+d",
            _G + "T 1/2 1/2 1/2; L 1/2 0 0; L2 0 -1/2 0; L4 0 0 -1/2; F 1/2 0 1/2; F2 1/2 1/2 0; S0 n -n 0; "
            "S2 1-n 0 n; S4 n 0 -n; S6 1-n n 0; H0 1/2 -1+e 1-e; H2 e 1-e 1/2; H4 e 1/2 1-e; H6 1/2 1-e -1+e; "
            "M0 n -1+e n; M2 1-n 1-e 1-n; M4 e n n; M6 1-n 1-n 1-e; M8 n n -1+e"),
    "hR2": ("z=1/6-c*c/(9*a*a); e=1/2-2*z; n=1/2+z",
            _G + "T 1/2 -1/2 1/2; P0 e -1+e e; P2 e e e; R0 1-e -e -e; M 1-n -n 1-n; M2 n -1+n -1+n; L 1/2 0 0; "
            "F 1/2 -1/2 0"),
    "mP": ("e=(1+a/c*co)/(2*si*si); n=1/2+e*c*co/a",
           _G + "Z 0 1/2 0; B 0 0 1/2; B2 0 0 -1/2; Y 1/2 0 0; Y2 -1/2 0 0; C 1/2 1/2 0; C2 -1/2 1/2 0; D 0 1/2 1/2; "
           "D2 0 1/2 -1/2; A -1/2 0 1/2; E -1/2 1/2 1/2; H -e 0 1-n; H2 -1+e 0 n; H4 -e 0 -n; M -e 1/2 1-n; "
           "M2 -1+e 1/2 n; M4 -e 1/2 -n"),
    "mC1": ("z=(2+a/c*co)/(4*si*si); e=1/2-2*z*c*co/a; p=3/4-b*b/(4*a*a*si*si); f=p-(3/4-p)*a/c*co",
            _G + "Y2 -1/2 1/2 0; Y4 1/2 -1/2 0; A 0 0 1/2; M2 -1/2 1/2 1/2; V 1/2 0 0; V2 0 1/2 0; L2 0 1/2 1/2; "
            "C 1-p 1-p 0; C2 -1+p p 0; C4 p -1+p 0; D -1+f f 1/2; D2 1-f 1-f 1/2; E -1+z 1-z 1-e; E2 -z z e; "
            "E4 z -z 1-e"),
    "mC2": ("m=(1+a*a/(b*b))/4; d=-a*c*co/(2*b*b); z=(a*a/(b*b)+(1+a/c*co)/(si*si))/4; e=1/2-2*z*c*co/a; f=1+z-2*m; "
            "p=e-2*d",
            _G + "Y 1/2 1/2 0; A 0 0 1/2; M 1/2 1/2 1/2; V2 0 1/2 0; L2 0 1/2 1/2; F -1+f 1-f 1-p; F2 1-f f p; "
            "F4 f 1-f 1-p; H -z z e; H2 z 1-z 1-e; H4 z -z 1-e; G -m m d; G2 m 1-m -d; G4 m -m -d; G6 1-m m d"),
    "mC3": ("z=(a*a/(b*b)+(1+a/c*co)/(si*si))/4; r=1-z*b*b/(a*a); e=1/2-2*z*c*co/a; m=e/2+a*a/(4*b*b)+a*c*co/(2*b*b); "
            "n=2*m-z; w=c*(1-4*n+a*a*si*si/(b*b))/(2*a*co); d=-1/4+w/2-z*c*co/a",
            _G + "Y 1/2 1/2 0; A 0 0 1/2; M2 -1/2 1/2 1/2; V 1/2 0 0; V2 0 1/2 0; L2 0 1/2 1/2; I -1+r r 1/2; "
            "I2 1-r 1-r 1/2; K -n n w; K2 -1+n 1-n 1-w; K4 1-n n w; H -z z e; H2 z 1-z 1-e; H4 z -z 1-e; N -m m d; "
            "N2 m 1-m -d; N4 m -m -d; N6 1-m m d"),
    "aP2": ("", _G + "Z 0 0 1/2; Y 0 1/2 0; X 1/2 0 0; V 1/2 1/2 0; U 1/2 0 1/2; T 0 1/2 1/2; R 1/2 1/2 1/2"),
    "aP3": ("", _G + "Z 0 0 1/2; Y 0 1/2 0; Y2 0 -1/2 0; X 1/2 0 0; V2 1/2 -1/2 0; U2 -1/2 0 1/2; T2 0 -1/2 1/2; "
            "R2 -1/2 -1/2 1/2"),
}
HPKOT_FAMILY = {"cP1": "cP", "cP2": "cP", "cF1": "cF", "cF2": "cF", "cI1": "cI", "tP1": "tP", "oP1": "oP", "hP1": "hP",
                "hP2": "hP", "mP1": "mP"}

SC = {
    "CUB": ("", _G + "M 1/2 1/2 0; R 1/2 1/2 1/2; X 0 1/2 0"),
    "FCC": ("", _G + "K 3/8 3/8 3/4; L 1/2 1/2 1/2; U 5/8 1/4 5/8; W 1/2 1/4 3/4; X 1/2 0 1/2"),
    "BCC": ("", _G + "H 1/2 -1/2 1/2; P 1/4 1/4 1/4; N 0 0 1/2"),
    "TET": ("", _G + "A 1/2 1/2 1/2; M 1/2 1/2 0; R 0 1/2 1/2; X 0 1/2 0; Z 0 0 1/2"),
    "BCT1": ("e=(1+c*c/(a*a))/4",
             _G + "M -1/2 1/2 1/2; N 0 1/2 0; P 1/4 1/4 1/4; X 0 0 1/2; Z e e -e; Z1 -e 1-e e"),
    "BCT2": ("e=(1+a*a/(c*c))/4; z=a*a/(2*c*c)",
             _G + "N 0 1/2 0; P 1/4 1/4 1/4; SIGMA -e e e; SIGMA1 e 1-e -e; X 0 0 1/2; Y -z z 1/2; Y1 1/2 1/2 -z; "
             "Z 1/2 1/2 -1/2"),
    "ORC": ("", _G + "R 1/2 1/2 1/2; S 1/2 1/2 0; T 0 1/2 1/2; U 1/2 0 1/2; X 1/2 0 0; Y 0 1/2 0; Z 0 0 1/2"),
    "ORCF1": ("z=(1+a*a/(b*b)-a*a/(c*c))/4; e=(1+a*a/(b*b)+a*a/(c*c))/4",
              _G + "A 1/2 1/2+z z; A1 1/2 1/2-z 1-z; L 1/2 1/2 1/2; T 1 1/2 1/2; X 0 e e; X1 1 1-e 1-e; Y 1/2 0 1/2; "
              "Z 1/2 1/2 0"),
    "ORCF2": ("e=(1+a*a/(b*b)-a*a/(c*c))/4; f=(1+c*c/(b*b)-c*c/(a*a))/4; d=(1+b*b/(a*a)-b*b/(c*c))/4",
              _G + "C 1/2 1/2-e 1-e; C1 1/2 1/2+e e; D 1/2-d 1/2 1-d; D1 1/2+d 1/2 d; L 1/2 1/2 1/2; H 1-f 1/2-f 1/2; "
              "H1 f 1/2+f 1/2; X 0 1/2 1/2; Y 1/2 0 1/2; Z 1/2 1/2 0"),
    "ORCI": ("z=(1+a*a/(c*c))/4; e=(1+b*b/(c*c))/4; d=(b*b-a*a)/(4*c*c); m=(a*a+b*b)/(4*c*c)",
             _G + "L -m m 1/2-d; L1 m -m 1/2+d; L2 1/2-d 1/2+d -m; R 0 1/2 0; S 1/2 0 0; T 0 0 1/2; W 1/4 1/4 1/4; "
             "X -z z z; X1 z 1-z -z; Y e -e e; Y1 1-e e -e; Z 1/2 1/2 -1/2"),
    "ORCC": ("z=(1+a*a/(b*b))/4",
             _G + "A z z 1/2; A1 -z 1-z 1/2; R 0 1/2 1/2; S 0 1/2 0; T -1/2 1/2 1/2; X z z 0; X1 -z 1-z 0; Y -1/2 1/2 0; "
             "Z 0 0 1/2"),
    "HEX": ("", _G + "A 0 0 1/2; H 1/3 1/3 1/2; K 1/3 1/3 0; L 1/2 0 1/2; M 1/2 0 0"),
    "RHL1": ("e=(1+4*co)/(2+4*co); n=3/4-e/2",
             _G + "B e 1/2 1-e; B1 1/2 1-e e-1; F 1/2 1/2 0; L 1/2 0 0; L1 0 0 -1/2; P e n n; P1 1-n 1-n 1-e; P2 n n e-1; "
             "Q 1-n n 0; X n 0 -n; Z 1/2 1/2 1/2"),
    "RHL2": ("t=si/(1+co); e=1/(2*t*t); n=3/4-e/2",
             _G + "F 1/2 -1/2 0; L 1/2 0 0; P 1-n -n 1-n; P1 n n-1 n-1; Q e e e; Q1 1-e -e -e; Z 1/2 -1/2 1/2"),
    "MCL": ("e=(1-b*co/c)/(2*si*si); n=1/2-e*c*co/b",
            _G + "A 1/2 1/2 0; C 0 1/2 1/2; D 1/2 0 1/2; D1 1/2 0 -1/2; E 1/2 1/2 1/2; H 0 e 1-n; H1 0 1-e n; H2 0 e -n; "
            "M 1/2 e 1-n; M1 1/2 1-e n; M2 1/2 e -n; X 0 1/2 0; Y 0 0 1/2; Y1 0 0 -1/2; Z 1/2 0 0"),
    "MCLC1": ("z=(2-b*co/c)/(4*si*si); e=1/2+2*z*c*co/b; p=3/4-a*a/(4*b*b*si*si); f=p+(3/4-p)*b*co/c",
              _G + "N 1/2 0 0; N1 0 -1/2 0; F 1-z 1-z 1-e; F1 z z e; F2 -z -z 1-e; F3 1-z -z 1-e; I f 1-f 1/2; "
              "I1 1-f f-1 1/2; L 1/2 1/2 1/2; M 1/2 0 1/2; X 1-p p-1 0; X1 p 1-p 0; X2 p-1 -p 0; Y 1/2 1/2 0; "
              "Y1 -1/2 -1/2 0; Z 0 0 1/2"),
    "MCLC3": ("m=(1+b*b/(a*a))/4; d=b*c*co/(2*a*a); z=m-1/4+(1-b*co/c)/(4*si*si); e=1/2+2*z*c*co/b; f=1+z-2*m; p=e-2*d",
              _G + "F 1-f 1-f 1-p; F1 f f-1 p; F2 1-f -f 1-p; H z z e; H1 1-z -z 1-e; H2 -z -z 1-e; I 1/2 -1/2 1/2; "
              "M 1/2 0 1/2; N 1/2 0 0; N1 0 -1/2 0; X 1/2 -1/2 0; Y m m d; Y1 1-m -m -d; Y2 -m -m -d; Y3 m m-1 d; "
              "Z 0 0 1/2"),
    "MCLC5": ("z=(b*b/(a*a)+(1-b*co/c)/(si*si))/4; e=1/2+2*z*c*co/b; m=e/2+b*b/(4*a*a)-b*c*co/(2*a*a); n=2*m-z; "
              "r=1-z*a*a/(b*b); w=(4*n-1-b*b*si*si/(a*a))*c/(2*b*co); d=z*c*co/b+w/2-1/4",
              _G + "F n n w; F1 1-n 1-n 1-w; F2 n n-1 w; H z z e; H1 1-z -z 1-e; H2 -z -z 1-e; I r 1-r 1/2; "
              "I1 1-r r-1 1/2; L 1/2 1/2 1/2; M 1/2 0 1/2; N 1/2 0 0; N1 0 -1/2 0; X 1/2 -1/2 0; Y m m d; Y1 1-m -m -d; "
              "Y2 -m -m -d; Y3 m m-1 d; Z 0 0 1/2"),
    "TRI1a": ("", _G + "L 1/2 1/2 0; M 0 1/2 1/2; N 1/2 0 1/2; R 1/2 1/2 1/2; X 1/2 0 0; Y 0 1/2 0; Z 0 0 1/2"),
    "TRI1b": ("", _G + "L 1/2 -1/2 0; M 0 0 1/2; N -1/2 -1/2 1/2; R 0 -1/2 1/2; X 0 -1/2 0; Y 1/2 0 0; Z -1/2 0 1/2"),
}
SC_FAMILY = {"ORCF3": "ORCF1", "MCLC2": "MCLC1", "MCLC4": "MCLC3", "TRI2a": "TRI1a", "TRI2b": "TRI1b"}

PATHS = {
    "HPKOT": {
        "cP1": "GAMMA-X-M-GAMMA-R-X|R-M-X1",
        "cP2": "GAMMA-X-M-GAMMA-R-X|R-M",
        "cF1": "GAMMA-X-U|K-GAMMA-L-W-X-W2",
        "cF2": "GAMMA-X-U|K-GAMMA-L-W-X",
        "cI1": "GAMMA-H-N-GAMMA-P-H|P-N",
        "tP1": "GAMMA-X-M-GAMMA-Z-R-A-Z|X-R|M-A",
        "tI1": "GAMMA-X-M-GAMMA-Z|Z0-M|X-P-N-GAMMA",
        "tI2": "GAMMA-X-P-N-GAMMA-M-S|S0-GAMMA|X-R|G-M",
        "oP1": "GAMMA-X-S-Y-GAMMA-Z-U-R-T-Z|X-U|Y-T|S-R",
        "oF1": "GAMMA-Y-T-Z-GAMMA-SIGMA0|U0-T|Y-C0|A0-Z|GAMMA-L",
        "oF2": "GAMMA-T-Z-Y-GAMMA-LAMBDA0|Q0-Z|T-G0|H0-Y|GAMMA-L",
        "oF3": "GAMMA-Y-C0|A0-Z-B0|D0-T-G0|H0-Y|T-GAMMA-Z|GAMMA-L",
        "oI1": "GAMMA-X-F2|SIGMA0-GAMMA-Y0|U0-X|GAMMA-R-W-S-GAMMA-T-W",
        "oI2": "GAMMA-X-U2|Y0-GAMMA-LAMBDA0|G2-X|GAMMA-R-W-S-GAMMA-T-W",
        "oI3": "GAMMA-X-F0|SIGMA0-GAMMA-LAMBDA0|G0-X|GAMMA-R-W-S-GAMMA-T-W",
        "oC1": "GAMMA-Y-C0|SIGMA0-GAMMA-Z-A0|E0-T-Y|GAMMA-S-R-Z-T",
        "oC2": "GAMMA-Y-F0|DELTA0-GAMMA-Z-B0|G0-T-Y|GAMMA-S-R-Z-T",
        "oA1": "GAMMA-Y-C0|SIGMA0-GAMMA-Z-A0|E0-T-Y|GAMMA-S-R-Z-T",
        "oA2": "GAMMA-Y-F0|DELTA0-GAMMA-Z-B0|G0-T-Y|GAMMA-S-R-Z-T",
        "hP1": "GAMMA-M-K-GAMMA-A-L-H-A|L-M|H-K-H2",
        "hP2": "GAMMA-M-K-GAMMA-A-L-H-A|L-M|H-K",
        "hR1": "GAMMA-T-H2|H0-L-GAMMA-S0|S2-F-GAMMA",
        "hR2": "GAMMA-L-T-P0|P2-GAMMA-F",
        "mP1": "GAMMA-Z-D-B-GAMMA-A-E-Z-C2-Y2-GAMMA",
        "mC1": "GAMMA-C|C2-Y2-GAMMA-M2-D|D2-A-GAMMA|L2-GAMMA-V2",
        "mC2": "GAMMA-Y-M-A-GAMMA|L2-GAMMA-V2",
        "mC3": "GAMMA-A-I2|I-M2-GAMMA-Y|L2-GAMMA-V2",
        "aP2": "GAMMA-X|Y-GAMMA-Z|R-GAMMA-T|U-GAMMA-V",
        "aP3": "GAMMA-X|Y-GAMMA-Z|R2-GAMMA-T2|U2-GAMMA-V2",
    },
    "SC": {
        "CUB": "GAMMA-X-M-GAMMA-R-X|M-R",
        "FCC": "GAMMA-X-W-K-GAMMA-L-U-W-L-K|U-X",
        "BCC": "GAMMA-H-N-GAMMA-P-H|P-N",
        "TET": "GAMMA-X-M-GAMMA-Z-R-A-Z|X-R|M-A",
        "BCT1": "GAMMA-X-M-GAMMA-Z-P-N-Z1-M|X-P",
        "BCT2": "GAMMA-X-Y-SIGMA-GAMMA-Z-SIGMA1-N-P-Y1-Z|X-P",
        "ORC": "GAMMA-X-S-Y-GAMMA-Z-U-R-T-Z|Y-T|U-X|S-R",
        "ORCF1": "GAMMA-Y-T-Z-GAMMA-X-A1-Y|T-X1|X-A-Z|L-GAMMA",
        "ORCF2": "GAMMA-Y-C-D-X-GAMMA-Z-D1-H-C|C1-Z|X-H1|H-Y|L-GAMMA",
        "ORCF3": "GAMMA-Y-T-Z-GAMMA-X-A1-Y|X-A-Z|L-GAMMA",
        "ORCI": "GAMMA-X-L-T-W-R-X1-Z-GAMMA-Y-S-W|L1-Y|Y1-Z",
        "ORCC": "GAMMA-X-S-R-A-Z-GAMMA-Y-X1-A1-T-Y|Z-T",
        "HEX": "GAMMA-M-K-GAMMA-A-L-H-A|L-M|K-H",
        "RHL1": "GAMMA-L-B1|B-Z-GAMMA-X|Q-F-P1-Z|L-P",
        "RHL2": "GAMMA-P-Z-Q-GAMMA-F-P1-Q1-L-Z",
        "MCL": "GAMMA-Y-H-C-E-M1-A-X-H1|M-D-Z|Y-D",
        "MCLC1": "GAMMA-Y-F-L-I|I1-Z-F1|Y-X1|X-GAMMA-N|M-GAMMA",
        "MCLC2": "GAMMA-Y-F-L-I|I1-Z-F1|N-GAMMA-M",
        "MCLC3": "GAMMA-Y-F-H-Z-I-F1|H1-Y1-X-GAMMA-N|M-GAMMA",
        "MCLC4": "GAMMA-Y-F-H-Z-I|H1-Y1-X-GAMMA-N|M-GAMMA",
        "MCLC5": "GAMMA-Y-F-L-I|I1-Z-H-F1|H1-Y1-X-GAMMA-N|M-GAMMA",
        "TRI1a": "X-GAMMA-Y|L-GAMMA-Z|N-GAMMA-M|R-GAMMA",
        "TRI2a": "X-GAMMA-Y|L-GAMMA-Z|N-GAMMA-M|R-GAMMA",
        "TRI1b": "X-GAMMA-Y|L-GAMMA-Z|N-GAMMA-M|R-GAMMA",
        "TRI2b": "X-GAMMA-Y|L-GAMMA-Z|N-GAMMA-M|R-GAMMA",
    },
}


def points(convention, symbol, a, b, c, alpha, beta):
    """{label: (k1, k2, k3)} of the published table."""
    table = HPKOT if convention == "HPKOT" else SC
    fam = (HPKOT_FAMILY if convention == "HPKOT" else SC_FAMILY).get(symbol, symbol)
    par, pts = table[fam]
    if pts.startswith("="):
        pts = table[pts[1:]][1]
    ang = math.radians(beta if convention == "HPKOT" else alpha)
    ns = {"a": a, "b": b, "c": c, "co": math.cos(ang), "si": math.sin(ang), "__builtins__": {}}
    for p in filter(None, (x.strip() for x in par.split(";"))):
        name, ex = p.split("=", 1)
        ns[name] = eval(ex, ns)
    out = {}
    for p in pts.split(";"):
        label, *xyz = p.split()
        out[label] = tuple(float(eval(x, ns)) for x in xyz)
    return out
