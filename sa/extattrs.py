"""Attribute names of the torch classes the package derives from (recorded from torch 2.10)."""
DISTRIBUTION = frozenset('''
__dict__ __module__ __weakref__ _batch_shape _event_shape _extended_shape
_get_checked_instance _validate_args _validate_sample arg_constraints batch_shape cdf
entropy enumerate_support event_shape expand has_enumerate_support has_rsample
icdf log_prob mean mode perplexity rsample
sample sample_n set_default_validate_args stddev support variance'''.split())
TRANSFORMEDDISTRIBUTION = frozenset('''
__annotations__ __dict__ __module__ __weakref__ _batch_shape _event_shape
_extended_shape _get_checked_instance _monotonize_cdf _validate_args _validate_sample arg_constraints
base_dist batch_shape cdf entropy enumerate_support event_shape
expand has_enumerate_support has_rsample icdf log_prob mean
mode perplexity rsample sample sample_n set_default_validate_args
stddev support transforms variance'''.split())
LOGNORMAL = frozenset('''
__annotations__ __dict__ __module__ __weakref__ _batch_shape _event_shape
_extended_shape _get_checked_instance _monotonize_cdf _validate_args _validate_sample arg_constraints
base_dist batch_shape cdf entropy enumerate_support event_shape
expand has_enumerate_support has_rsample icdf loc log_prob
mean mode perplexity rsample sample sample_n
scale set_default_validate_args stddev support transforms variance'''.split())
ITERABLEDATASET = frozenset('''
__abstractmethods__ __add__ __class_getitem__ __dict__ __getitem__ __iter__
__module__ __orig_bases__ __parameters__ __slots__ __weakref__ _abc_impl'''.split())
KNOWN = {"torch.distributions.Distribution": DISTRIBUTION, "torch.distributions.TransformedDistribution": TRANSFORMEDDISTRIBUTION,
         "torch.distributions.LogNormal": LOGNORMAL, "torch.utils.data.IterableDataset": ITERABLEDATASET}
