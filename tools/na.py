NA.append((dict(id='C90', title='White noise is statistically white and Gaussian',
    statement='Over seeds and modes, the generated noise is distributed as independent complex Gaussian numbers of unit variance.',
    quantifier=dict(over=['inputs'], text='all seeds and modes, in distribution'),
    why_tests_cant='A few seeds cannot establish a distribution.',
    anchors=dict(files=['pmesh/_whitenoise_generics.h', 'pmesh/_whitenoise_imp.c'],
                 mechanism=[dict(name='Box-Muller of a high quality generator', where='pmesh/_whitenoise_generics.h')])),
    'A statement about a probability distribution over 2^32 seeds: exhaustive enumeration of a bounded space decides individual values, not a distribution, and a statistical test would be sampling. C14, C16 to C18 and C39 decide what can be enumerated.'))
