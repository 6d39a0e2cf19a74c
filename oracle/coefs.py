"""Published coefficients (Burrell et al. 2020; Chisham et al. 2022)."""
ELL = {'median': (4.01, 0.55, -0.92), 'gaussian': (4.41, 0.51, -0.95)}
HAR = {
    ('ampere', 'median'): [
        3.31000535, -0.5452934, -1.24389141, 2.42619653, -0.66677988,
        -1.03467488, -0.30763009, 0.52426756, 0.04359299, 0.60201848,
        0.50618522, 1.04360529, 0.25186405],
    ('ampere', 'gaussian'): [
        3.80100827, 0.98555723, -3.43760943, 1.85084271, -0.36730751,
        -0.81975654, -1.02823832, 1.30637288, -0.53599218, 0.40380183,
        -1.22462708, -1.2733629, -0.62743381],
    ('si12', 'ocb'): [0.0405, -1.5078, 1.0, 0.5095, 1.0, 0.9371, 1.0,
                      0.0708, 1.0, 0.0, 1.0, 0.0, 1.0],
    ('si12', 'eab'): [-0.1447, -1.9779, 1.0, 2.6799, 1.0, 0.5778, 1.0,
                      -1.2297, 1.0, 0.0, 1.0, 0.0, 1.0],
    ('si13', 'ocb'): [0.5797, -0.6837, 1.0, -0.5020, 1.0, 0.2971, 1.0,
                      -0.4173, 1.0, 0.0, 1.0, 0.0, 1.0],
    ('si13', 'eab'): [0.2500, -2.9931, 1.0, 0.8818, 1.0, 0.8511, 1.0,
                      -0.6300, 1.0, 0.0, 1.0, 0.0, 1.0],
    ('wic', 'ocb'): [1.0298, -1.1249, 1.0, -0.7380, 1.0, 0.1838, 1.0,
                     -0.6171, 1.0, 0.0, 1.0, 0.0, 1.0],
    ('wic', 'eab'): [-0.4935, -2.1186, 1.0, 0.3188, 1.0, 0.5749, 1.0,
                     -0.3118, 1.0, 0.0, 1.0, 0.0, 1.0]}
