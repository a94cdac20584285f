F += [
 ("Y07", "zero_rate(first futures)", "the zero rate stored for the first futures pillar is the rate of its last stretch, not the rate implied by its own discount factor (src/markets/termstructures/yieldcurve/ratehelper.rs FuturesRate::zero_rate); an existing test pins the resulting curve"),
]
M.update({'FX option delta and gamma': 'F06', "ignored the pair's spot lag": 'F10', 'forward_at returned': 'F10', 'zero rate beyond the last pillar': 'Y01', 'cash quotes sharing a maturity': 'Y05',
          'swap pillars of the stripped curve': 'Y05', 'swap schedule divided': 'R02', 'AONIA': 'R01', 'CDOR': 'R01'})
M.update({'simulate_at_dates dropped': 'M07'})
M.update({'sign of the antiderivative': 'M11', 'later SABR pillars': 'M17'})
M.update({'cosine pricer': 'M09'})
M.update({'FX-HHW1 drift integral': 'M21', 'the HLMM discount factor': 'M25', 'the FMM discount factor': 'M31'})
M.update({'ignored the level schedule after time zero': 'M13'})
