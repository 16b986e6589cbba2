"""Reference programs for the transform classes (interpreted by the analysis, never executed)."""
import torch
from ml4gw.spectral import (
    fast_spectral_density, normalize_by_psd, spectral_density, truncate_inverse_power_spectrum, whiten)
from ml4gw.gw import compute_network_snr


def hann(n):
    return torch.hann_window(n, dtype=torch.float64)


def whiten_module(fduration, sample_rate, highpass, lowpass, X, psd, crop):
    w = hann(int(fduration * sample_rate))
    return whiten(X, psd, w, sample_rate, highpass=highpass, lowpass=lowpass, crop=crop)


def background_psd(x, sample_rate, num_freqs, fftlength, overlap):
    """PSD of a background: given as such, or estimated by Welch's method; on num_freqs bins."""
    if fftlength is not None:
        n = int(fftlength * sample_rate)
        if overlap is None:
            overlap = fftlength / 2
        step = n - int(overlap * sample_rate)
        w = hann(n)
        x = spectral_density(x, n, step, w, 1 / (sample_rate * (w ** 2).sum()), average="median")
    if x.shape[-1] != num_freqs:
        x = torch.nn.functional.interpolate(x.reshape(1, 1, -1), size=(num_freqs,)).reshape(-1)
    return x


def fixed_whiten_fit(num_channels, kernel_length, sample_rate, fduration, backgrounds, fftlength, overlap, highpass, lowpass):
    if len(backgrounds) != num_channels:
        raise ValueError
    nf = int(kernel_length * sample_rate) // 2 + 1
    rows = []
    for x in backgrounds:
        p = background_psd(x, sample_rate, nf, fftlength, overlap)
        rows.append(truncate_inverse_power_spectrum(p[None, None], fduration, sample_rate, highpass, lowpass)[0, 0])
    return torch.stack(rows, dim=0), torch.Tensor([fduration])


def fixed_whiten_forward(kernel_length, sample_rate, psd, fduration, X, crop):
    if X.shape[-1] != int(kernel_length * sample_rate):
        raise ValueError
    return normalize_by_psd(X, psd, sample_rate, int(fduration.item() * sample_rate / 2), crop)


def scaler_fit(X, num_channels, std_reg):
    if X.ndim == 1:
        m = X.mean()
        s = ((X - m) ** 2).mean() ** 0.5 + std_reg
        return m.reshape(1), s.reshape(1)
    if X.ndim == 2:
        m = X.mean(dim=1)
        s = ((X - m[:, None]) ** 2).mean(dim=1) ** 0.5 + std_reg
        return m[:, None], s[:, None]
    raise ValueError


def scaler_forward(X, mean, std, reverse):
    return X * std + mean if reverse else (X - mean) / std


def snr_fit(num_channels, sample_rate, waveform_duration, backgrounds, fftlength, overlap):
    if len(backgrounds) != num_channels:
        raise ValueError
    nf = int(waveform_duration * sample_rate) // 2 + 1
    return torch.stack([background_psd(x, sample_rate, nf, fftlength, overlap) for x in backgrounds])


def snr_forward(sample_rate, waveform_duration, highpass, lowpass, background, responses, target):
    freqs = torch.fft.rfftfreq(int(waveform_duration * sample_rate), 1 / sample_rate)
    hp = None if highpass is None else freqs >= highpass
    lp = None if lowpass is None else freqs < lowpass
    snr = compute_network_snr(responses, background, sample_rate, hp, lp)
    if target is None:
        target = snr[torch.randperm(len(snr))]
    return responses * (target / snr)[:, None, None], target


def density_module(sample_rate, fftlength, overlap, average, window, fast, x, y):
    if overlap is None:
        overlap = fftlength / 2
    elif overlap >= fftlength:
        raise ValueError
    n = int(fftlength * sample_rate)
    step = n - int(overlap * sample_rate)
    if window is None:
        window = torch.hann_window(n)
    if window.shape[0] != n or average not in ("mean", "median"):
        raise ValueError
    scale = 1 / (sample_rate * (window ** 2).sum())
    if fast:
        return fast_spectral_density(x, n, step, window, scale, average, y)
    if y is not None:
        raise NotImplementedError
    return spectral_density(x, n, step, window, scale, average)
