#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one place to edit; run it to regenerate)."""
import json, os

P = []

def prop(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text),
        why_tests_cant=why,
        anchors=dict(
            files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            observe_at=observe, hook_needed=None)))

OB = "market/orderbook.go"
POS = "market/position.go"
CAN = "market/candle.go"

prop("C01", "An order book is always sorted, depth-bounded and uncrossed",
     "A newly built order book holds, per side, exactly the best-priced of the rows given to it up to its maximum depth. "
     "Then and after every update applied to it since, its asks are in increasing price order, its bids in decreasing price order, and neither side holds more rows than the maximum depth. "
     "If the rows it was built from had distinct prices per side and did not cross, then no side ever holds two rows at one price and the best bid is always strictly below the best ask.",
     ["histories", "inputs"], "every initial row list, every maximum depth, every finite sequence of set/delete updates on both sides at any prices",
     "TestNewOrderBook only prints; TestApplyUpdate applies one update and asserts only that no error came back. No test looks at the rows after an update.",
     [OB], [("constructor sorts and truncates", OB + ":NewOrderBook"), ("sorted insertion and truncation after each update", OB + ":ApplyUpdate"), ("removal of crossed rows of the other side", OB + ":removeInvalid")],
     ["OrderBook.Asks", "OrderBook.Bids", "OrderBook.MaxDepth"],
     [("rows per side", "price levels kept best price first", OB)])

prop("C02", "An order book update changes exactly the levels it names",
     "An update with a non-zero volume makes that price hold exactly that volume on its side and removes those rows of the other side, and only those, that sit at or through that price; an update with zero volume removes that price from its side if it is there. "
     "Every other row keeps its price and volume, except that the worst rows beyond the maximum depth are dropped. "
     "An update whose side is neither ask nor bid is rejected with an error and changes nothing; the other updates succeed, and no update changes the book's time or maximum depth.",
     ["histories", "inputs"], "every reachable book, every update (side, price on/between/beyond levels, volume zero or positive)",
     "The single update in TestApplyUpdate is never compared with an expected book.",
     [OB], [("level set/insert/delete", OB + ":ApplyUpdate"), ("crossed rows removed", OB + ":removeInvalid"), ("depth limit", OB + ":limit")],
     ["OrderBook.ApplyUpdate result", "OrderBook.Asks", "OrderBook.Bids"])

prop("C03", "Accumulated volume is always the running total from the best price",
     "After an order book is built and after every update applied to it, each row's accumulated volume equals the sum of the volumes of that row and of all better-priced rows on its side.",
     ["histories", "inputs"], "every initial row list and depth, every sequence of updates, every row",
     "No test reads an accumulated volume.",
     [OB, "market/orderbook_types.go"], [("running totals computed after sorting and after each update", OB)],
     ["OrderBookRow.AccumVolume"])

prop("C04", "The depth query returns the volume available up to a price",
     "For a positive price between the best and worst ask (inclusive), the depth query returns the total volume of the asks at or below that price; otherwise, for a price between the worst and best bid (inclusive), the total volume of the bids at or above it. "
     "Any other price, including every price on an empty book and every price that is not positive, is answered with an error. "
     "The query works when only one side has rows, and never changes the book.",
     ["histories", "inputs"], "every reachable book including empty and one-sided ones, every price on, between, outside the levels",
     "TestOrderBookGetDepth, despite its name, never calls the depth query.",
     [OB], [("interval search over running totals", OB + ":GetDepth")], ["OrderBook.GetDepth result"])

prop("C05", "Book overlap has its defined value, is symmetric, and fails cleanly",
     "For two uncrossed books where one book's best ask is below the other's best bid, the overlap is the absolute difference between the cost of all asks of the first priced at or below that best bid and the value of the same volume (or all there is, if less) of the other's bids priced at or above that best ask, taken from the lowest such price upward. "
     "The value does not depend on the order of the two arguments, nor on rows outside the overlapping price range. "
     "Books that do not overlap, including ones with empty sides, yield an error; neither book is changed.",
     ["inputs", "configurations"], "every pair of uncrossed books, in both argument orders, partially, fully or not overlapping, with empty sides",
     "Two pairs of books are tested, and the assertion is one-sided (result-4.9 < 0.01), so any smaller or negative value passes.",
     [OB], [("overlap range and value", OB + ":overlapCalculation"), ("direction choice and no-overlap error", OB + ":CalculateOverlap")],
     ["CalculateOverlap result"])

prop("C06", "An order book owns its rows",
     "Building an order book never changes the row slices passed in, and what later happens to those slices (or to other books built from the same or adjacent slices) never changes the book, nor do updates to the book change them. "
     "In particular both sides may be built from adjoining parts of one slice.",
     ["histories", "inputs"], "every layout of the caller's slices (separate, shared, adjoining, with spare capacity) and every update sequence on one or two books",
     "Tests pass fresh literals to one book and never look at them again.",
     [OB], [("constructor copies its inputs", OB + ":NewOrderBook")], ["caller's row slices", "OrderBook.Asks", "OrderBook.Bids"])

prop("C07", "A position's profit always equals its net cash flow",
     "While a position is open, its unrealized profit at any price equals the money received minus the money paid over all trades it accepted, plus (long) or minus (short) its remaining quantity valued at that price. "
     "When it closes, its recorded profit equals the money received minus the money paid over all its trades, including the closing one valued at the position's full remaining quantity. "
     "Both hold up to floating-point rounding.",
     ["histories", "inputs"], "every sequence of buys and sells of any positive quantity and price, long and short",
     "TestModifyPosition follows two fixed four-trade histories with hard-coded figures.",
     [POS], [("weighted average on increase", POS + ":add"), ("break-even cost on decrease, realized profit on close", POS + ":substract"), ("mark to market", POS + ":UnrealizedProfit")],
     ["Position.Profit", "Position.UnrealizedProfit", "Position.OpenPrice"],
     [("OpenPrice*Quantity", "net cash invested in the open position", POS)])

prop("C08", "A position's size, state and trade ledger follow its trades",
     "A position opened by a buy is long, by a sell short; trades in its direction add to its quantity, opposite ones subtract, and it closes, at that trade's price and time, exactly when the remainder reaches zero (a trade may exceed the remainder by at most 0.0001, and floating-point residue counts as zero), its recorded quantity staying what it was before that trade. "
     "A trade for another pair (one that differs in anything), one larger than the remaining size, or any trade on a closed position is rejected with an error and leaves the position unchanged. "
     "The ledger lists the ids of exactly the accepted trades in order, also when copies of the position go on separately, and no other field changes.",
     ["histories", "inputs"], "every sequence of trades (both actions, any positive quantities, matching and foreign pairs), continued after closing and after copying the position",
     "Tests never check the error of a rejected trade, never trade on after closing, and never copy a position.",
     [POS], [("dispatch on type and action, pair check", POS + ":Modify"), ("size check and closing", POS + ":substract")],
     ["Position fields", "Position.Modify result"])

prop("C09", "A trade's fee reconciles its cost with its notional",
     "For every trade created, cost = price x quantity + fee if it is a buy and cost = price x quantity - fee if it is a sell, up to floating-point rounding, and all values passed in are recorded unchanged.",
     ["inputs"], "every price, quantity and cost, both actions, every order type",
     "TestNewTrade checks one buy; the sell formula is not tested at all.",
     ["market/trade.go"], [("fee formula", "market/trade.go:NewTrade")], ["Trade.Fee", "Trade fields"])

prop("C10", "Order requests are validated and resolve to a consistent, finite size",
     "A new order request is refused exactly when its base symbol, action or type is missing, it is a limit order without a price, or quantity and total are both zero. "
     "Resolving a request with exactly one of quantity and total set yields a copy in which total = quantity x price, using the current price for market and close-position orders and the request's own price for all others, with everything else, and the original, unchanged. "
     "Resolving fails with an error when neither or both are set, and when a quantity would have to be computed from a zero price.",
     ["inputs"], "every combination of pair, action, type, quantity, price, total and current price, including zeros",
     "Ten market/limit cases are tested; no error case, no other order type, no zero price.",
     ["market/order_request.go"], [("validation", "market/order_request.go:NewOrderRequest"), ("size resolution", "market/order_request.go:CalculateFields")],
     ["NewOrderRequest result", "CalculateFields result"])

prop("C11", "Resampled candles aggregate exactly the source candles of their interval",
     "Resampling a time-ordered series to an interval that its spacing divides starts at the first candle whose minute of the hour is zero or a multiple of the interval (taken modulo 60 when longer than an hour), and from there on assigns every candle to exactly one output candle, one per interval counted from that start, never mixing candles of different intervals even when source candles are missing. "
     "Each output candle has the time and open of its first source candle, the close of its last, the highest high, the lowest low and the summed volume rounded to five decimals, and outputs are in time order. "
     "A single candle is returned as it is.",
     ["inputs", "histories"], "every start minute, source spacing, target interval, length, pattern of missing candles and price/volume values",
     "One gap-free day starting at midnight is resampled to 5, 15 and 60 minutes.",
     [CAN], [("bucketing from the pivot candle", CAN + ":ModifyInterval"), ("first aligned candle", CAN + ":findFirstIndex"), ("OHLCV aggregation", CAN + ":compressCandle")],
     ["ModifyInterval result"])

prop("C12", "Resampling rejects what it cannot do and has no side effects",
     "Resampling never panics: a non-positive interval, a source spacing (the first two candles' distance in whole minutes) of zero or one that does not divide the interval, and a series without an aligned starting candle are refused with an error and no candles, and an empty series gives no candles. "
     "The input series is never modified, and the result does not depend on the machine's time zone.",
     ["inputs", "configurations"], "every small time-ordered series (empty, duplicate and sub-minute timestamps included), every interval including zero and negative, every local time zone",
     "Only two refusals are tested, in the time zone the tests happen to run in.",
     [CAN], [("precondition checks", CAN + ":ModifyInterval"), ("alignment in UTC", CAN + ":findFirstIndex")],
     ["ModifyInterval result and error", "input slice"])

prop("C13", "The minimum interval is the smallest gap between neighbouring candles",
     "The minimum interval of a series of two or more candles is the smallest absolute time difference between consecutive candles in whole minutes, wherever in the series it occurs; with fewer than two candles it is zero. The series is not modified.",
     ["inputs"], "every series, ordered or not, of any length",
     "The function has no test.",
     [CAN], [("minimum over neighbours", CAN + ":GetMinInterval")], ["GetMinInterval result"])

prop("C14", "Candles saved to a file load back identical",
     "Loading a file written by saving a list of candles returns the same candles, in order and bit for bit, for any 64-bit time and any finite values. "
     "Saving replaces whatever the file held before and does not change the candles; saving an empty list loads back as no candles.",
     ["inputs", "histories"], "every list of candles (extreme times and float values), every sequence of saves and loads over existing files",
     "Saving is not tested; loading only reads well-formed files with 32-bit times.",
     ["market/candle_load.go"], [("one line per candle, shortest exact float form", "market/candle_load.go:SaveCandlesToFile"), ("line parser", "market/candle_load.go:LoadCandlesFromFile")],
     ["file contents", "LoadCandlesFromFile result"])

prop("C15", "Damaged files and I/O failures are reported, never passed off as data",
     "If a save is cut short at any byte, loading what is on disk returns either an error or an exact prefix of the saved candles; a file with any line not in the saved form is refused with an error and never panics. "
     "A save whose bytes could not all be written, and a load whose file could not be fully read, return an error. "
     "Neither leaves the file open.",
     ["crash_points", "fault_sequences", "inputs"], "every byte offset at which the file ends or a write fails, every single-byte damage of a small file, unreadable paths",
     "No test loads a malformed or truncated file or injects a failing write.",
     ["market/candle_load.go"], [("write, read and parse errors propagated; file closed", "market/candle_load.go")],
     ["SaveCandlesToFile error", "LoadCandlesFromFile result", "open file descriptors"])

prop("C16", "The simple moving average is the mean of each window",
     "For a period between 1 and the number of candles n, the simple moving average has n-period+1 values, the k-th being the mean of the closes of candles k to k+period-1, up to floating-point rounding. A missing series, a period above n or below 1 is refused with an error.",
     ["inputs"], "every close series and every period",
     "One dataset with period 20 within 0.1.",
     ["indicators/ma.go"], [("window mean", "indicators/ma.go:MovingAverage")], ["MovingAverage result"])

prop("C17", "The exponential moving average follows its recurrence through every candle",
     "For a period between 1 and the number of candles n, the exponential moving average has n-period values, one for each candle from index period on: each is that candle's close times 2/(period+1) plus the previous average times the rest, the average before the first being the mean of the first period closes. A missing series, a period above n or below 1 is refused with an error.",
     ["inputs"], "every close series and every period",
     "The only test fails on the unchanged tree and compares with figures from another data window.",
     ["indicators/ma.go"], [("seed and recurrence", "indicators/ma.go:ExponentialMovingAverage")], ["ExponentialMovingAverage result"])

prop("C18", "The smoothed moving average follows its recurrence through every candle",
     "For a period between 1 and the number of candles n, the smoothed moving average has n-period+1 values: the first is the mean of the first period closes and each later one is (previous x (period-1) + the next close) / period. A missing series, a period above n or below 1 is refused with an error.",
     ["inputs"], "every close series and every period",
     "One twelve-candle series with period 2 and a one-sided comparison (expected-actual < 0.4).",
     ["indicators/ma.go"], [("seed and recurrence", "indicators/ma.go:SmoothedMovingAverage")], ["SmoothedMovingAverage result"])

prop("C19", "RSI is the up-move share of each window, within 0 and 100",
     "For at least 14 candles and a period from 1 to n-1, RSI has n-period values, the k-th being 100 x U/(U+D) where U and D are the total rises and falls of the close over the period changes ending at candle k+period, and 50 when there was no change; so every value lies between 0 and 100. "
     "A missing series, fewer than 14 candles, a period below 1 or not below n is refused with an error.",
     ["inputs"], "every close series (flat, monotone, mixed) of every length and every period",
     "TestRSI only asserts that something non-nil came back; it even passes while the last value is computed from memory behind the series.",
     ["indicators/rsi.go"], [("window of period changes", "indicators/rsi.go:RSI"), ("ratio", "indicators/rsi.go:calculateRSI")], ["RSI result"])

prop("C20", "Williams fractals are exactly the confirmed local extremes",
     "An up fractal is reported for exactly those candles whose high is strictly above the highs of the two candles before and which are followed by two lower highs before any higher high (equal highs neither count nor cancel), and a down fractal mirrors this for lows. "
     "Each is reported once, with its candle's time and its high or low as price, in time order; a series of fewer than five candles has none.",
     ["inputs"], "every pattern of highs and lows including ties, of every length",
     "Two series are tested and only the number of fractals is compared.",
     ["indicators/williams_fractals.go"], [("left and right comparison", "indicators/williams_fractals.go:findFractal")], ["WilliamFractals result"])

prop("C21", "Exponentially weighted volatility weights every candle range",
     "The exponentially weighted volatility of a series is obtained by starting from zero and, for every candle in order, replacing the value v by beta x v + (1-beta) x (high-low); so it is zero for no candles and, for beta in [0,1], never leaves the span of zero and the candles' ranges.",
     ["inputs"], "every series and every beta",
     "One dataset with beta 0.5.",
     ["indicators/ewv.go"], [("recurrence", "indicators/ewv.go:ExponentialWeightedVolatility")], ["ExponentialWeightedVolatility result"])

prop("C22", "Indicators never look ahead, repaint, or touch their input",
     "Appending candles to a series never changes or retracts what an indicator (simple, exponential and smoothed averages, RSI, Williams fractals) already reported for the shorter series, and no indicator result depends on memory beyond the series it was given or on earlier calls. "
     "No indicator modifies its input, no later call changes an earlier result, and no argument makes one panic.",
     ["histories", "inputs"], "every series and every one-candle extension of it, every period including invalid ones, every slice capacity",
     "Each indicator is called on complete datasets once; nothing compares a shorter with a longer series.",
     ["indicators/ma.go", "indicators/rsi.go", "indicators/williams_fractals.go", "indicators/ewv.go"],
     [("windows end at the current candle", "indicators/"), ("fractals reported only once confirmed", "indicators/williams_fractals.go:findFractal")],
     ["results before and after each append", "input slices"])

prop("C23", "Strategy actions are all kept, each under its own unique id",
     "Every order or position action added to an action set is kept, with its payload unchanged, under a freshly generated id that is also recorded in it and differs from every other action's, whatever id it carried before and however many were added in one or several calls; other actions are not affected, and the caller's own values are not modified. "
     "Annotations are kept unchanged in the order added.",
     ["histories"], "every sequence of add calls of every kind with zero, one or more items, from empty and pre-filled action sets, with clashing preset ids",
     "The strategy package has no tests.",
     ["strategy/actions.go", "strategy/order_actions.go", "strategy/position_actions.go", "strategy/annotation.go"],
     [("id generation and map insertion", "strategy/actions.go"), ("unique ids", "strategy/order_actions.go")],
     ["Actions maps and slices"])

prop("C24", "Storage models identify, replace and protect themselves correctly",
     "Updating an order, trade, position or annotation from a pointer to another of its kind makes it equal to that one in every field; updating it from anything else (another model, a plain value, nil) fails with an error and changes nothing. "
     "Each reports its own id, and a schema with its table name (orders, trades, positions, annotations) and the primary key name of the field that holds the id.",
     ["histories", "inputs"], "every combination of populated fields in target and source, every wrong argument kind, every sequence of updates",
     "None of these methods is tested.",
     ["market/order.go", "market/trade.go", "market/position.go", "strategy/annotation.go"],
     [("type check then whole-value copy", "Update methods")], ["model fields", "Update result", "GetID, GetSchema"])

prop("C25", "Models survive their JSON wire form unchanged",
     "Encoding any market or strategy model that has JSON names (with finite numbers) and decoding it again gives back an equal value, whichever fields are populated. "
     "In the encoded form every field appears under its own name in snake case, and no two fields share a name.",
     ["inputs"], "every model type and every subset of populated fields, nested models included",
     "No test encodes a model.",
     ["market/", "strategy/"], [("struct tags", "market/*.go, strategy/*.go")], ["encoding/json output"])

prop("C26", "Symbols resolve to what they spell",
     "Every entry of the pair table is keyed by exactly its base symbol followed by its quote symbol, and its quote is one of the exchange's quote currencies, so no symbol resolves to another pair. "
     "An asset looked up by a known symbol carries that same symbol and the name known for it, which no other symbol of that lookup has; any unknown symbol, and an asset without symbol or name, is refused with an error. "
     "A pair's symbol is base, separator, quote, or just the base when there is no quote.",
     ["inputs"], "every entry of the table; every symbol string up to five upper-case letters; every base, quote and separator",
     "TestPairSymbol checks two pairs; the table and the lookups are not checked.",
     ["market/pair_mappings.go", "market/pair.go", "market/asset.go", "market/asset_helpers.go"],
     [("static table", "market/pair_mappings.go"), ("lookup switches", "market/asset_helpers.go"), ("symbol composition", "market/pair.go:Symbol")],
     ["PairMappings", "NewCryptoAsset, NewForexAsset, NewStockAsset", "Pair.Symbol"])

prop("C27", "Dates and tick times denote the right instant",
     "A date string is accepted exactly when it is a valid calendar date written YYYY-MM-DD, and denotes midnight UTC of that day; anything else is an error. "
     "A tick's time, local or in a named location, is the same instant as its candle's time, expressed in the local zone or in that location; an unknown location is an error.",
     ["inputs", "configurations"], "every year, month and day number; every known time zone; times around every zone transition",
     "Neither function is tested.",
     ["utils/date.go", "strategy/strategy.go"], [("RFC 3339 parse", "utils/date.go:RawDateToRFC3339"), ("zone conversion", "strategy/strategy.go:GetLocationTime")],
     ["RawDateToRFC3339", "Tick.GetLocalTime", "Tick.GetLocationTime"])

prop("C28", "Independent callers can use the library concurrently",
     "Calls made concurrently by callers that share nothing, or only share input data they do not modify, each give the same result as when run alone, under every interleaving, and ids generated concurrently are all different.",
     ["schedules"], "every interleaving of two callers' operations (statement by statement, up to the preemption bound), for every pair of operations",
     "The tests are strictly sequential.",
     ["market/", "indicators/", "strategy/", "utils/"], [("no shared mutable package state", "all packages"), ("atomic id counter", "rs/xid")],
     ["results of concurrent calls"])

prop("C29", "Rendering a model never fails and shows the whole book",
     "Turning any market, strategy or indicator model into text never panics, also for zero values, short ids and absent nested values, and never changes the model. "
     "Printing an order book lists every row exactly once, asks from worst to best and then bids from best to worst.",
     ["inputs"], "every model type with every subset of populated fields, and every small book",
     "Tests print two books and check nothing.",
     ["market/", "strategy/annotation.go", "indicators/williams_fractals.go"], [("String and Print methods", "market/*.go")], ["String results", "standard output of Print"])

prop("C30", "An order is open exactly until it is fulfilled or canceled",
     "An order reports itself open if and only if its status is neither fulfilled nor canceled, whatever its other fields hold, and asking does not change it.",
     ["inputs", "histories"], "every status value (also unknown ones), every combination of populated other fields, every status sequence",
     "The method is not tested.",
     ["market/order.go"], [("status test", "market/order.go:IsOpen")], ["Order.IsOpen"])

prop("C31", "Constructors record what they are given under fresh ids",
     "A new position records its opening trade's pair, price, quantity, time and id, is open, long for a buy and short for a sell, and has nothing else set; a new annotation and a new pair hold exactly the values given and nothing else, and a new order book has the maximum depth given and the current Unix time in seconds. "
     "The trade is not changed, and changing it later does not change the position. Every position, annotation and strategy action gets an id that is not empty and that no other of them, of any kind, ever got; generating an id changes nothing else.",
     ["inputs", "histories"], "every subset of populated fields of the opening trade and of every action, every combination of value variants, long sequences of id generations of mixed kinds",
     "Tests look at one position and never compare ids.",
     ["market/position.go", "market/pair.go", "market/orderbook.go", "strategy/annotation.go", "strategy/order_actions.go", "strategy/position_actions.go"],
     [("opening a position", "market/position.go:NewPosition"), ("annotations", "strategy/annotation.go:NewAnnotation"), ("action ids", "strategy/order_actions.go:GenerateID")],
     ["NewPosition", "NewAnnotation", "NewPair", "NewOrderBook", "GenerateID"])

prop("C32", "A book or position restored from JSON carries on as if never stored",
     "At any point of its history, an order book or a position can be encoded as JSON and decoded again: the restored one looks the same, answers every depth, overlap and unrealized profit query alike, "
     "and accepts, rejects and applies every further update or trade exactly as the original would.",
     ["histories", "crash_points"], "every history of updates or trades, with the restoration at every point of it",
     "Tests never store a book or position in the middle of a history.",
     ["market/orderbook.go", "market/orderbook_types.go", "market/position.go"],
     [("book state", "market/orderbook.go:OrderBook"), ("book rows", "market/orderbook_types.go:OrderBookRow"), ("position state", "market/position.go:Position")],
     ["OrderBook, Position before and after restoration"])

prop("C33", "Repeated and reordered independent book updates give the same book",
     "Applying an update to an order book twice in a row gives the same levels as applying it once, and an update setting a level makes an immediately preceding update of that same level irrelevant, for every maximum depth. "
     "Two updates of different levels, neither setting a level at or through the other's price on the other side, give the same levels in either order as long as the maximum depth leaves room for all rows.",
     ["histories", "schedules"], "every pair of updates in both orders on every small uncrossed book, and every order of a set of levels",
     "Tests apply one sequence of updates in one order.",
     ["market/orderbook.go"], [("update", "market/orderbook.go:ApplyUpdate"), ("crossed rows", "market/orderbook.go:removeInvalid")],
     ["OrderBook rows"])

prop("C34", "Resampling in steps equals resampling at once",
     "Resampling a gap-free series first to an intermediate interval that divides or is a multiple of an hour, and the result (if it has two or more candles) to a multiple of that interval, gives the same candles as resampling the series to that multiple directly, volumes up to rounding, or both fail. "
     "From its first interval on nothing is lost: highest high, lowest low, last close and total volume (up to rounding) are those of the source candles.",
     ["inputs"], "every source spacing, intermediate and final interval, start minute and length around whole and partial intervals",
     "Tests resample three files in one step each.",
     ["market/candle.go"], [("resampling", "market/candle.go:ModifyInterval"), ("aggregation", "market/candle.go:compressCandle"), ("alignment", "market/candle.go:findFirstIndex")],
     ["ModifyInterval"])

prop("C35", "Averages follow the closes, and RSI mirrors with them",
     "Every value of the simple, exponential and smoothed moving averages lies between the lowest and the highest close of the series. Doubling, raising by a constant or negating all closes does the same to every average; "
     "RSI is unchanged when all closes are doubled and becomes 100 minus itself when they are negated. All up to floating-point rounding.",
     ["inputs"], "every series over the close alphabets with every period, and its transformed versions",
     "Tests compare a few values of one data set.",
     ["indicators/ma.go", "indicators/rsi.go"], [("averages", "indicators/ma.go"), ("RSI", "indicators/rsi.go:RSI")],
     ["MovingAverage", "ExponentialMovingAverage", "SmoothedMovingAverage", "RSI"])

prop("C36", "Refusals say what kind they are and return no result",
     "A refused call returns no series, request, asset or candles, and an error whose code tells the kind: invalid for unusable arguments (side, period, series too short, price not positive, interval, order request, trade, model of another kind, line that has not the form of a candle, asset without name or symbol), "
     "conflict when a source spacing does not fit the requested interval, and not found for unknown symbols, books that do not overlap and prices outside the book.",
     ["inputs"], "every combination of small arguments to every function that can refuse",
     "Tests check two errors for being present.",
     ["market/", "indicators/", "strategy/annotation.go"], [("error codes", "market/*.go"), ("error codes", "indicators/*.go")],
     ["errors of all exported functions"])

prop("C37", "The text of a model shows each field's own value",
     "In the text of a candle, trade, order, order request, position, ticker, balance, snapshot, book, book row, annotation or fractal every shown field appears with its own value, in the order of its labels: numbers rounded to the digits shown (at least two decimals), a position's id shortened to eight characters, times, names and symbols in full. "
     "Two equal models have equal texts.",
     ["inputs"], "every model type with every subset of populated fields and variants in which neighbouring fields differ, every number field at every decimal magnitude",
     "Tests print two books and compare nothing.",
     ["market/", "strategy/annotation.go", "indicators/williams_fractals.go"], [("String methods", "market/*.go"), ("annotation text", "strategy/annotation.go:String")], ["String results"])

prop("C38", "Buying and selling sides mirror each other",
     "A book built and updated with its sides exchanged and every price p replaced by c - p stays the mirror image of the original row by row, refuses the same updates and, while asks lie above bids, answers the mirrored depth queries alike. "
     "A position opened and changed by the same trades with buys and sells exchanged has the opposite type, accepts and refuses the same trades, has the same size, prices and ledger and the negated profit and unrealized profit. "
     "The fractals of a series whose highs and lows are negated and exchanged are those of the original at the negated price with up and down exchanged.",
     ["histories", "inputs"], "every history of updates or trades within the bounds, two real instances in lock step; every series of candles from small alphabets",
     "Tests exercise the two sides with different numbers and never against each other.",
     ["market/orderbook.go", "market/position.go", "indicators/williams_fractals.go"],
     [("updates", "market/orderbook.go:ApplyUpdate"), ("trades", "market/position.go:Modify"), ("fractals", "indicators/williams_fractals.go:WilliamFractals")],
     ["ApplyUpdate", "GetDepth", "Modify", "UnrealizedProfit", "WilliamFractals"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
    print(len(P))
