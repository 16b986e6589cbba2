"""Reference networks as functions of their trained state, by state-dict name (interpreted, never executed)."""
import math
import torch
import torch.nn.functional as F


def weighted(layer, state, name):
    """A torch layer carrying the trained values stored under a name."""
    for key in ("weight", "bias", "running_mean", "running_var"):
        if name + "." + key in state:
            setattr(layer, key, state[name + "." + key])
    return layer


def group_norm(x, groups, weight, bias, eps):
    """Zero mean, unit (biased) variance over the channels of each group and all samples; then scale and shift."""
    batch, channels, length = x.shape
    g = x.reshape(batch, groups, channels // groups, length)
    first = g.mean(-1).mean(-1)[:, :, None, None]
    second = (g ** 2).mean(-1).mean(-1)[:, :, None, None]
    mean = first.expand(-1, -1, channels // groups, -1).reshape(batch, channels, 1)
    power = second.expand(-1, -1, channels // groups, -1).reshape(batch, channels, 1)
    return (x - mean) / (power - mean ** 2 + eps) ** 0.5 * weight + bias


def group_norm_1d(channels, groups, eps, state, prefix, x):
    if groups is None or groups == 0:
        groups = channels
    if channels % groups:
        raise ValueError("groups")
    if x.dim() != 3:
        raise ValueError("dimension")
    return group_norm(x, groups, state[prefix + "weight"], state[prefix + "bias"], eps)


def norm_1d(limit):
    """Group normalisation with at most `limit` groups, one per channel by default."""
    def apply(state, name, channels, x):
        groups = channels if limit is None else min(channels, limit)
        return group_norm(x, groups, state[name + ".weight"], state[name + ".bias"], 1e-5)
    return apply


def norm_2d(limit):
    def apply(state, name, channels, x):
        groups = channels if limit is None else min(channels, limit)
        return weighted(torch.nn.GroupNorm(groups, channels), state, name)(x)
    return apply


def batch_norm(dims):
    def apply(state, name, channels, x):
        make = torch.nn.BatchNorm1d if dims == 1 else torch.nn.BatchNorm2d
        return weighted(make(channels), state, name)(x)
    return apply


def conv(state, name, x, dims, cin, cout, size, stride=1, groups=1, dilation=1, padding=None, bias=False):
    make = torch.nn.Conv1d if dims == 1 else torch.nn.Conv2d
    pad = dilation * (size // 2) if padding is None else padding
    layer = make(cin, cout, size, stride, pad, dilation, groups, bias)
    return weighted(layer, state, name)(x)


def normalise(kind, limit, dims):
    if kind == "batch":
        return batch_norm(dims)
    if dims == 1:
        return norm_1d(limit)
    return norm_2d(limit)


def basic(state, name, x, dims, norm, cin, planes, size, stride, groups, width, dilation):
    y = conv(state, name + ".conv1", x, dims, cin, planes, size, stride)
    y = F.relu(norm(state, name + ".bn1", planes, y))
    y = conv(state, name + ".conv2", y, dims, planes, planes, size)
    return norm(state, name + ".bn2", planes, y)


def bottleneck(state, name, x, dims, norm, cin, planes, size, stride, groups, width, dilation):
    mid = int(planes * (width / 64)) * groups
    y = conv(state, name + ".conv1", x, dims, cin, mid, size)
    y = F.relu(norm(state, name + ".bn1", mid, y))
    y = conv(state, name + ".conv2", y, dims, mid, mid, size, stride, groups, dilation)
    y = F.relu(norm(state, name + ".bn2", mid, y))
    y = conv(state, name + ".conv3", y, dims, mid, 4 * planes, 1)
    return norm(state, name + ".bn3", 4 * planes, y)


def arrangement(layers, growth, groups, width, kinds):
    """One entry per block: name, input channels, planes, stride, dilation, whether its shortcut is projected."""
    out, wide, dilation = [], 64, 1
    for i in range(len(layers)):
        planes = 64 * 2 ** i
        stride, before = (1 if i == 0 else 2), dilation
        rule = "stride" if i == 0 else kinds[i - 1]
        if rule == "dilation":
            dilation, stride = dilation * stride, 1
        elif rule != "stride":
            raise ValueError("stride type")
        for j in range(layers[i]):
            name = "residual_layers." + str(i) + "." + str(j)
            here, spread = (stride, before) if j == 0 else (1, dilation)
            if growth == 1 and (groups != 1 or width != 64):
                raise ValueError("groups")
            if growth == 1 and spread > 1:
                raise NotImplementedError("dilation")
            out.append((name, wide, planes, here, spread, j == 0 and (here != 1 or wide != growth * planes)))
            wide = growth * planes
    return out


def resnet(state, x, dims, block, channels, layers, classes, size, groups, width, kinds, kind, limit):
    if kinds is None:
        kinds = ["stride"] * (len(layers) - 1)
    if len(kinds) != len(layers) - 1:
        raise ValueError("stride types")
    if size % 2 == 0:
        raise ValueError("even kernel")
    branch, growth = (basic, 1) if block == "basic" else (bottleneck, 4)
    plan = arrangement(layers, growth, groups, width, kinds)
    norm = normalise(kind, limit, dims)
    pool = torch.nn.MaxPool1d(3, 2, 1) if dims == 1 else torch.nn.MaxPool2d(3, 2, 1)
    x = pool(F.relu(norm(state, "bn1", 64, conv(state, "conv1", x, dims, channels, 64, 7, 2))))
    wide = 64
    for name, wide, planes, stride, dilation, project in plan:
        y = branch(state, name, x, dims, norm, wide, planes, size, stride, groups, width, dilation)
        wide = growth * planes
        if project:
            x = conv(state, name + ".downsample.0", x, dims, x.shape[1], wide, 1, stride)
            x = norm(state, name + ".downsample.1", wide, x)
        x = F.relu(y + x)
    pooled = x.mean(-1) if dims == 1 else x.mean((-2, -1))
    return weighted(torch.nn.Linear(wide, classes), state, "fc")(pooled)


# -- diagonal state space models -------------------------------------------------------------------

def impulse_response(state, prefix, length):
    """2 Re sum_n C_n (exp(dt A_n) - 1) / A_n exp(dt A_n l) for every channel and lag l."""
    dt = torch.exp(state[prefix + "log_dt"])[:, None]
    out = torch.view_as_complex(state[prefix + "C"])
    pole = torch.complex(-torch.exp(state[prefix + "log_A_real"]), state[prefix + "A_imag"])
    weight = out * (torch.exp(dt * pole) - 1) / pole
    lag = torch.arange(length)
    terms = weight[:, :, None] * torch.exp((dt * pole)[:, :, None] * lag)
    return 2 * terms.sum(1).real


def causal(kernel, x):
    """Linear convolution with a causal kernel of the same length, cropped to that length."""
    n = x.shape[-1]
    product = torch.fft.rfft(x, n=2 * n) * torch.fft.rfft(kernel, n=2 * n)
    return torch.fft.irfft(product, n=2 * n)[:, :, :n]


def s4d(state, prefix, model, drop, transposed, x):
    if not transposed:
        x = x.transpose(1, 2)
    y = causal(impulse_response(state, prefix + "kernel.", x.shape[2]), x)
    y = F.gelu(y + state[prefix + "D"][:, None] * x)
    if drop > 0:
        y = torch.nn.Dropout1d(drop)(y)
    y = conv(state, prefix + "output_linear.0", y, 1, model, 2 * model, 1, bias=True)
    y = y[:, :model] * torch.sigmoid(y[:, model:])
    return y if transposed else y.transpose(1, 2)


def s4model(state, inputs, outputs, model, layers, drop, x):
    x = weighted(torch.nn.Linear(inputs, model), state, "encoder")(x.transpose(1, 2)).transpose(1, 2)
    for i in range(layers):
        name = "s4_layers." + str(i) + "."
        z = torch.nn.Dropout1d(drop)(s4d(state, name, model, drop, True, x))
        norm = weighted(torch.nn.LayerNorm(model), state, "norms." + str(i))
        x = norm((z + x).transpose(1, 2)).transpose(1, 2)
    return weighted(torch.nn.Linear(model, outputs), state, "decoder")(x.mean(2))


def refuse():
    raise ValueError("dropout")


def fresh_kernel(channels, states, shortest, longest):
    """log dt uniform between the logarithms, C normal, real part -1/2 and imaginary part pi n."""
    u = torch.rand(channels)
    log_dt = math.log(shortest) + u * (math.log(longest) - math.log(shortest))
    out = torch.view_as_real(torch.randn(channels, states // 2, dtype=torch.complex64))
    damping = torch.full((channels, states // 2), 0.5).log()
    frequency = (math.pi * torch.arange(states // 2)).expand(channels, -1)
    return log_dt, out, damping, frequency


def fresh_norm(channels):
    return torch.ones(channels, 1), torch.zeros(channels, 1)


# -- autoencoders ----------------------------------------------------------------------------------

def resize(x, size):
    """Crop or zero-pad the last axis to a size, evenly on both sides (the odd sample on the right of a pad)."""
    have = x.shape[-1]
    if have < size:
        before = (size - have) // 2
        return F.pad(x, (before, size - have - before))
    if have > size:
        before = (have - size + 1) // 2
        return x[:, :, before:before + size]
    return x


def join(kind, groups, x, state):
    """A decoder's output with the input of the encoder of the same level."""
    x = resize(x, state.shape[-1])
    if kind == "plain":
        return x
    if kind == "add":
        return x + state
    if groups == 1:
        return torch.cat([x, state], dim=1)
    if x.shape[1] % groups:
        raise ValueError("groups")
    parts = []
    for i in range(groups):
        for y in (x, state):
            n = y.shape[1] // groups
            parts.append(y[:, i * n:(i + 1) * n])
    return torch.cat(parts, dim=1)


def transposed(state, name, x, cin, cout, size, stride, groups):
    layer = torch.nn.ConvTranspose1d(cin, cout, size, stride, (size - 1) // 2, bias=False, groups=groups)
    return weighted(layer, state, name)(x)


def autoencoder(state, x, channels, encode, size, stride, groups, decoded, skip, skip_groups, linear, plain=False):
    """Strided convolutions down, transposed convolutions up; each level's decoder gives back what its encoder was given."""
    length = x.shape[-1]
    wide = [channels] + [n * groups for n in encode]
    states = []
    for i in range(len(encode)):
        name = "blocks." + str(i)
        if i:
            states.append(x)
        x = conv(state, name + ".encode_layer", x, 1, wide[i], wide[i + 1], size, stride, groups, padding=(size - 1) // 2)
        x = torch.tanh(x) if plain else F.relu(weighted(torch.nn.BatchNorm1d(wide[i + 1]), state, name + ".encode_norm")(x))
    for i in range(len(encode) - 1, -1, -1):
        name = "blocks." + str(i)
        out = wide[i] if i or decoded is None else decoded
        x = transposed(state, name + ".decode_layer", x, x.shape[1], out, size, stride, groups)
        x = x if plain else weighted(torch.nn.BatchNorm1d(out), state, name + ".decode_norm")(x)
        if i or not linear:
            x = torch.tanh(x) if plain else F.relu(x)
        if i and skip is not None:
            x = join(skip, skip_groups, x, states[i - 1])
    return resize(x, length)


def skip_draw(channels):
    return torch.randn(channels)


def start(outer, inner, zero, column):
    """Initial normalisations of a residual network: unit scales and no offsets, except that with a zero initial residual
    the last scale of every branch is zero, so that every block starts as the identity."""
    def full(n, v):
        return v * torch.ones(n, 1) if column else v * torch.ones(n)

    return (tuple([full(n, 0 if zero else 1) for n in outer]), tuple([full(n, 0) for n in outer]),
            tuple([full(n, 1) for n in inner]), full(64, 1), full(64, 0))
