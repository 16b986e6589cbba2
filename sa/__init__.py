"""Static analyser for ml4gw: abstract interpretation of the source text (never imports torch or ml4gw)."""
