CHECKS = {
    "C01": ("physics", "c01"), "C02": ("physics", "c02"), "C03": ("physics", "c03"),
    "C04": ("physics", "c04"), "C05": ("physics", "c05"), "C06": ("physics", "c06"),
    "C07": ("physics", "c07"), "C08": ("physics", "c08"),
    "C09": ("layout", "c09"),
    "C10": ("geometry", "c10"), "C11": ("geometry", "c11"), "C12": ("geometry", "c12"),
    "C13": ("geometry", "c13"),
    "C14": ("caches", "c14"), "C15": ("params", "c15"), "C16": ("params", "c16"),
    "C17": ("effects", "c17"),
    "C18": ("scatter", "c18"), "C19": ("scatter", "c19"), "C20": ("scatter", "c20"),
    "C21": ("scatter", "c21"), "C22": ("scatter", "c22"),
    "C23": ("package", "c23"), "C24": ("package", "c24"), "C25": ("package", "c25"),
    "C26": ("package", "c26"), "C27": ("shapes", "c27"), "C28": ("plots", "c28"),
    "C29": ("plots", "c29"), "C30": ("plots", "c30"),
    "C31": ("support", "c31"), "C32": ("support", "c32"),
    "C33": ("defined", "c33"),
}

_TRUST = ("Decides the property for all values of the symbolic inputs of the listed client "
          "configurations (both backends, mono-/bistatic, units, ways to pass parameters). "
          "Trusted: the models of numpy/scipy/sympy/symengine functions, exact real "
          "arithmetic instead of floating point, the documented ranges of angles. ")

NOTES = {
    "C01": ("value agreement of sibling results", _TRUST),
    "C02": ("term comparison with the first-order surface term", _TRUST),
    "C03": ("term comparison with the first-order volume term", _TRUST),
    "C04": ("term comparison with the first-order interaction term",
            _TRUST + "Expansion orders up to (3,2) quick, (4,4) thorough."),
    "C05": ("term comparison of converted results", _TRUST),
    "C06": ("path-wise term comparison under tau = 0 and definedness obligations", _TRUST),
    "C07": ("term comparison with symbolic partial derivatives", _TRUST),
    "C08": ("term comparison with symbolic total derivatives", _TRUST),
    "C10": ("typestate of the geometry: value comparison after every call sequence",
            _TRUST + "All sequences of up to 2 (quick) / 3 (thorough) geometry calls."),
    "C11": ("reachability of an exception on every path; state comparison after it", _TRUST),
    "C12": ("term comparison for all subsets of fixed angles", _TRUST),
    "C13": ("term comparison with the exact azimuth integral (polynomial algebra)",
            _TRUST + "Generic coefficients up to (3,2) quick, (4,4) thorough; single orders "
            "up to 12 quick, 24 thorough."),
    "C09": ("data layout of the derivative matrices (term per column and observation)", _TRUST),
    "C14": ("cache coherence: value comparison with a new model after every call sequence",
            _TRUST + "All sequences of up to 2 (quick) / 3 (thorough) modifications after "
            "filled caches."),
    "C15": ("term comparison of evaluated quantities; reachability of the error", _TRUST),
    "C16": ("typestate of the parameter dictionary: comparison with the simulated "
            "dictionary", _TRUST + "All sequences of up to 2 (quick) / 3 (thorough) updates."),
    "C17": ("effect analysis: no write reaches the caller's arguments or stored state",
            _TRUST + "Ownership of every array and container passed in, stored or returned "
            "is tracked; every in-place operation is an obligation."),
    "C18": ("term comparison of the scattering angle for all classes and forms of a; "
            "reachability of the error", _TRUST),
    "C19": ("exact integration and recurrence / term-ratio comparison of phase function and "
            "coefficients", _TRUST + "All orders; CosineLobe powers up to 6 quick, 12 "
            "thorough."),
    "C20": ("exact symbolic integration of the phase-function terms", _TRUST),
    "C21": ("term comparison of expansions; reachability of the error", _TRUST
            + "Numbers of coefficients up to 6 quick, 12 thorough."),
    "C22": ("coefficient comparison of the expansion of combinations", _TRUST + "All "
            "patterns of equal/different a for up to 3 (quick) / 4 (thorough) components."),
    "C23": ("typestate of the backend selection; which engine is used (effects); term "
            "comparison for both backends", _TRUST + "All sequences of up to 3 selections; "
            "invalid values are sampled from near misses of the two names."),
    "C24": ("import and call reachability with subsets of the optional packages removed",
            _TRUST + "Optional packages are found in the syntax tree of the package."),
    "C25": ("abstract heap copy through the pickle / copy protocol; term comparison of "
            "original and duplicate", _TRUST + "Model of the pickle protocol."),
    "C26": ("term comparison with a harmless name; writes to module namespaces (effects)",
            _TRUST + "15 (quick) / 38 (thorough) names."),
    "C27": ("shape-token analysis of every contribution (which inputs span the axes of a value)",
            _TRUST + "Arrays are represented by the set of inputs whose axes they carry; "
            "client programs with every subset of array inputs. Zero-length axes are not "
            "considered."),
    "C28": ("term comparison of the returned iterated integrals; which condition guards the "
            "message (effects)", _TRUST + "Trusted: quadrature rules of scipy approximate "
            "the integral over the grid they are given."),
    "C29": ("comparison of the set of drawn curves; order of the error and drawing calls",
            _TRUST),
    "C30": ("typestate of the analyzers after slider movements (environment model of the "
            "widgets); state on exceptional exits", _TRUST + "One to five movements per "
            "configuration; special angles (nadir) are covered by C04/C06."),
    "C31": ("effect sequence of the logging calls after every sequence of set_loglevel",
            _TRUST + "All sequences of up to 3 (quick) / 4 (thorough) calls out of 5, all "
            "levels and formats."),
    "C32": ("path enumeration of the decorator against an interface model of NumpyDocString",
            _TRUST + "Up to 2 (quick) / 3 (thorough) parents and 2 parameters."),
    "C33": ("definedness obligations of every division, logarithm, root and special function "
            "discharged by interval / sign analysis",
            _TRUST + "Floating point overflow is not considered. Parameter domain as stated "
            "in the property; phase functions of the user are assumed to be defined."),
}
