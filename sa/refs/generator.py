"""Reference program for the conditioning of frequency domain approximants (interpreted, never executed).

XLALSimInspiralTDfromFD / XLALSimInspiralFD: lower the starting frequency so that the whole signal, plus ten percent
and three cycles, fits; taper between that frequency and the requested one; transform; taper three ends in time; then
pad on the left to the requested duration and high-pass.
"""
import math
import numpy as np
import torch
from ml4gw.constants import MSUN
from ref.filters import iir
from ref.bursts import (
    chirp_start_frequency_bound, chirp_time_bound, final_spin_bound, frequency_isco, merge_time_bound,
    ringdown_time_bound)


def start(sr, f_min, m1, m2, s1z, s2z):
    low = torch.minimum(frequency_isco(m1, m2), torch.full_like(m1, f_min))
    tchirp = chirp_time_bound(low, m1, m2, s1z, s2z)
    spin = final_spin_bound(s1z, s2z)
    tail = merge_time_bound(m1, m2) + ringdown_time_bound(m1 + m2, spin)
    fstart = chirp_start_frequency_bound(1.1 * tchirp, m1, m2)
    span = chirp_time_bound(fstart, m1, m2, s1z, s2z) + tail + 2 * 3 / low
    samples = torch.round(span * sr)
    length = 2 ** torch.ceil(torch.log(samples) / math.log(2))
    return low, fstart, sr / length.max()


def spectrum(approximant, sr, f_min, f_ref, right_pad, pars):
    m1, m2 = pars["mass_1"].double() * MSUN, pars["mass_2"].double() * MSUN
    low, fstart, df = start(sr, f_min, m1, m2, pars["s1z"], pars["s2z"])
    nyq = int(sr / 2)
    freqs = torch.linspace(0, nyq, int(nyq / df) + 1)
    keep = freqs >= fstart.min()
    cross, plus = approximant(freqs[keep], **pars, f_ref=f_ref)
    k = torch.arange(freqs.shape[0])
    first, last = torch.round(fstart / df)[:, None], torch.round(low / df)[:, None]
    ramp = 0.5 * (1 - torch.cos(math.pi * (k - first) / (last - first)))
    gain = torch.where((k >= first) & (k <= last), ramp, torch.ones_like(ramp))
    gain = torch.where(freqs[None] >= fstart[:, None], gain, torch.zeros_like(gain))
    gain = torch.where(k[None] == freqs.shape[0] - 1, torch.zeros_like(gain), gain)
    shift = round(right_pad * sr) / sr
    turn = torch.exp(2j * math.pi * df * shift * k)
    out = []
    for pol in (cross, plus):
        full = torch.zeros((pol.shape[0], freqs.shape[0]), dtype=pol.dtype)
        full[:, keep] = pol
        out.append(full * gain * turn)
    return out[0], out[1]


def taper(sr, f_min, hc, hp, pars):
    """Raised cosines over one cycle of f_min at the start and one cycle at f_isco at the end."""
    m1, m2 = pars["mass_1"].double() * MSUN, pars["mass_2"].double() * MSUN
    n = hp.shape[-1]
    head = max(round(sr / f_min), 4)
    tail = torch.clamp(torch.round(sr / frequency_isco(m1, m2)), min=4)
    j = torch.arange(n)
    up = 0.5 - 0.5 * torch.cos(math.pi * j / head)
    up = torch.where(j < head, up, torch.ones_like(up))
    back = n - j
    reach = (back < int(tail.max().item()))[None] & (back[None] < tail[:, None])
    down = 0.5 - 0.5 * torch.cos(math.pi * back[None] / tail[:, None])
    down = torch.where(reach, down, torch.ones_like(down))
    return hc * up * down, hp * up * down


def waveform(approximant, sr, duration, f_min, f_ref, right_pad, highpass, pars):
    hc, hp = spectrum(approximant, sr, f_min, f_ref, right_pad, pars)
    hc, hp = torch.fft.irfft(hc) * sr, torch.fft.irfft(hp) * sr
    hc, hp = taper(sr, f_min, hc, hp, pars)
    pad = int(duration * sr - hp.shape[-1])
    hc, hp = torch.nn.functional.pad(hc, (pad, 0)), torch.nn.functional.pad(hp, (pad, 0))
    return highpass(hc.double()), highpass(hp.double())


def highpass(sample_rate, f_min, x):
    """Eighth order Butterworth filter that passes 99 percent of the power at f_min, run both ways."""
    w = np.tan(np.pi * f_min / sample_rate) * (1 / math.sqrt(0.99) - 1) ** (1 / 16)
    return iir(8.0, 2 * np.arctan(w) / np.pi, None, None, "highpass", False, "butterworth", None, x)


def sizes(sample_rate, duration):
    return int(sample_rate * duration), int(sample_rate / 2), 1 / duration, 1 / sample_rate


def grid(sample_rate, df):
    top = int(sample_rate / 2)
    return torch.linspace(0, top, int(top / df) + 1)
