from matplotlib.pyplot import Colormap


class ListedColormap(Colormap):
    pass


class LinearSegmentedColormap(Colormap):
    pass
