//! Independent integer arithmetic for tick prices and amount conversion (the oracle side).
use cosmwasm_std::Uint256;

pub const MIN_TICK: i64 = -108_000_000;
pub const MAX_TICK: i64 = 182_402_823;
pub const ONE18: u128 = 1_000_000_000_000_000_000;
const STEP: i64 = 9_000_000;

/// Price of a tick in units of 1e-18 (always exact).
/// Between consecutive powers of ten there are 9,000,000 equally spaced ticks.
pub fn atomics(t: i64) -> u128 {
    if t >= 0 {
        let d = (t / STEP) as u32;
        let r = (t % STEP) as u128;
        10u128.pow(d) * (1_000_000 + r) * 1_000_000_000_000
    } else {
        let n = -t;
        let d = (n / STEP) as u32;
        let r = (n % STEP) as u128;
        // 10^-d * (1 - r/10^7), in 1e-18 units
        let m = 10_000_000 - r;
        if d <= 11 {
            m * 10u128.pow(11 - d)
        } else {
            m / 10u128.pow(d - 11)
        }
    }
}

pub fn u(x: u128) -> Uint256 {
    Uint256::from(x)
}

/// floor(base * price)
pub fn to_quote_floor(base: u128, t: i64) -> Uint256 {
    u(base) * u(atomics(t)) / u(ONE18)
}
pub fn to_quote_ceil(base: u128, t: i64) -> Uint256 {
    cdiv(u(base) * u(atomics(t)), u(ONE18))
}
/// floor(quote / price)
pub fn to_base_floor(quote: u128, t: i64) -> Uint256 {
    u(quote) * u(ONE18) / u(atomics(t))
}
pub fn to_base_ceil(quote: u128, t: i64) -> Uint256 {
    cdiv(u(quote) * u(ONE18), u(atomics(t)))
}
pub fn cdiv(a: Uint256, b: Uint256) -> Uint256 {
    let q = a / b;
    if q * b == a {
        q
    } else {
        q + Uint256::one()
    }
}

/// What a maker at tick `t` on side `bid` receives for `amt` of filled deposit, rounded down.
pub fn maker_value(bid: bool, amt: u128, t: i64) -> Uint256 {
    if bid {
        to_base_floor(amt, t)
    } else {
        to_quote_floor(amt, t)
    }
}
/// What a taker must pay (rounded up) for `amt` of liquidity of side `bid` at tick `t`.
pub fn taker_cost(bid: bool, amt: u128, t: i64) -> Uint256 {
    if bid {
        to_base_ceil(amt, t)
    } else {
        to_quote_ceil(amt, t)
    }
}
/// How much of side `bid` liquidity `input` buys at `t`, rounded down.
pub fn taker_out(bid: bool, input: u128, t: i64) -> Uint256 {
    // taking bids: pay base, receive quote
    if bid {
        to_quote_floor(input, t)
    } else {
        to_base_floor(input, t)
    }
}

pub fn to_u128(x: Uint256) -> Option<u128> {
    cosmwasm_std::Uint128::try_from(x).ok().map(|v| v.u128())
}

/// Render an integer number of 1e-18 units as a decimal string the contract's JSON accepts.
pub fn dec18(x: u128) -> String {
    let i = x / ONE18;
    let f = x % ONE18;
    if f == 0 {
        i.to_string()
    } else {
        let s = format!("{:018}", f);
        format!("{}.{}", i, s.trim_end_matches('0'))
    }
}

/// Parse a non-negative decimal string (<= 18 fractional digits) to 1e-18 units.
pub fn parse_dec(s: &str) -> Option<Uint256> {
    let (i, f) = match s.split_once('.') {
        Some((i, f)) => (i, f),
        None => (s, ""),
    };
    if f.len() > 18 {
        return None;
    }
    let i: Uint256 = i.parse().ok()?;
    let frac: u128 = if f.is_empty() {
        0
    } else {
        format!("{:0<18}", f).parse().ok()?
    };
    i.checked_mul(u(ONE18)).ok()?.checked_add(u(frac)).ok()
}
/// Parse a decimal that must be a whole number.
pub fn parse_whole(s: &str) -> Option<u128> {
    let a = parse_dec(s)?;
    let q = a / u(ONE18);
    if q * u(ONE18) != a {
        return None;
    }
    to_u128(q)
}
