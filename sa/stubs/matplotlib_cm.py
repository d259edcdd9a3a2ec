"""Colour maps (matplotlib >= 3.9 has no cm.get_cmap)."""
__absent__ = ("get_cmap", "register_cmap")
