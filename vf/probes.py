"""Probes of the known findings: True while the recorded defect is still there."""
import numpy as np


def _load():
    from .native import base
    base.load_spafe()


def bank_columns_misaligned():
    _load()
    from spafe.features.mfcc import mel_spectrogram
    from spafe.fbanks.mel_fbanks import mel_filter_banks
    from spafe.utils.converters import mel2hz
    x = np.sin(2 * np.pi * 2500 * np.arange(4000) / 16000)
    S, _ = mel_spectrogram(x, fs=16000, pre_emph=False, low_freq=1000, high_freq=4000, nfft=512)
    c = mel2hz(np.asarray(mel_filter_banks(fs=16000, low_freq=1000, high_freq=4000, nfft=512)[1]))
    m = int(np.argmax(S.mean(0)))
    return bool(abs(c[m] - 2500) > 300)


def extract_feats_half_spectrum():
    _load()
    from spafe.features.spfeats import extract_feats
    x = np.sin(2 * np.pi * 1000 * np.arange(512) / 16000)
    return bool(abs(extract_feats(x, 16000)["spectral_centroid"] - 2000) < 100)
