From 14c6bebc857d21d0875a1ecf161f3607f818ad8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:42:20 +0000
Subject: [PATCH 01/27] fix: remove exactly the order book rows crossed by an
 update

A new level removed one row too many from the other side when its price fell
between two levels, and kept the last row when it was at or through it, leaving
a locked or crossed book.
---
 market/orderbook.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/market/orderbook.go b/market/orderbook.go
index e204517..d5b0793 100644
--- a/market/orderbook.go
+++ b/market/orderbook.go
@@ -96,17 +96,17 @@ func (ob *OrderBook) removeInvalid(side string, price float64) int {
 			return 0
 		}
 		for i := range ob.Asks {
-			if ob.Asks[i].Price < price {
+			if ob.Asks[i].Price <= price {
 				continue
 			} else {
-				startIndex := int(math.Min(float64(i+1), float64(len(ob.Asks)-1)))
-				rowsRemoved = len(ob.Asks) - i
-				ob.Asks = ob.Asks[startIndex:]
+				rowsRemoved = i
+				ob.Asks = ob.Asks[i:]
 				found = true
 				break
 			}
 		}
 		if !found {
+			rowsRemoved = len(ob.Asks)
 			ob.Asks = []OrderBookRow{}
 		}
 		return rowsRemoved
@@ -115,17 +115,17 @@ func (ob *OrderBook) removeInvalid(side string, price float64) int {
 			return 0
 		}
 		for i := range ob.Bids {
-			if ob.Bids[i].Price > price {
+			if ob.Bids[i].Price >= price {
 				continue
 			} else {
-				startIndex := int(math.Min(float64(i+1), float64(len(ob.Bids)-1)))
-				rowsRemoved = len(ob.Bids) - i
-				ob.Bids = ob.Bids[startIndex:]
+				rowsRemoved = i
+				ob.Bids = ob.Bids[i:]
 				found = true
 				break
 			}
 		}
 		if !found {
+			rowsRemoved = len(ob.Bids)
 			ob.Bids = []OrderBookRow{}
 		}
 		return rowsRemoved
-- 
2.43.0


From 5c178595661cc6cfb32a1b64e33fe21ae191f979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:42:20 +0000
Subject: [PATCH 02/27] fix: keep accumulated volumes up to date after order
 book updates

ApplyUpdate left the accumulated volume of new rows at zero and that of the
rows behind them at the value from before the update.
---
 market/orderbook.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/market/orderbook.go b/market/orderbook.go
index d5b0793..abbcdc6 100644
--- a/market/orderbook.go
+++ b/market/orderbook.go
@@ -70,6 +70,18 @@ func (ob *OrderBook) limit() {
 	if len(ob.Bids) > ob.MaxDepth {
 		ob.Bids = ob.Bids[:ob.MaxDepth]
 	}
+
+	accumulate(ob.Asks)
+	accumulate(ob.Bids)
+}
+
+// accumulate recalculates the accumulated volume of each row
+func accumulate(rows []OrderBookRow) {
+	total := 0.0
+	for i := range rows {
+		total += rows[i].Volume
+		rows[i].AccumVolume = total
+	}
 }
 
 func (ob *OrderBook) String() string {
-- 
2.43.0


From f8c46b92361755151156b0b8b00d55c744675cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:42:21 +0000
Subject: [PATCH 03/27] fix: return the accumulated volume from GetDepth

GetDepth is documented to return the accumulated volume but returned the price
of the level, and panicked when a side of the book was empty.
---
 market/orderbook.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/market/orderbook.go b/market/orderbook.go
index abbcdc6..c5c2b86 100644
--- a/market/orderbook.go
+++ b/market/orderbook.go
@@ -273,26 +273,32 @@ func (ob *OrderBook) GetDepth(price float64) (float64, error) {
 		return 0, ez.New(op, ez.EINVALID, "Price can't be equal or below zero", nil)
 	}
 
-	firstAsk, lastAsk := ob.Asks[0], ob.Asks[len(ob.Asks)-1]
-	firstBid, lastBid := ob.Bids[0], ob.Bids[len(ob.Bids)-1]
+	// An empty side has a zero price interval, which no price falls into
+	var firstAsk, lastAsk, firstBid, lastBid OrderBookRow
+	if len(ob.Asks) > 0 {
+		firstAsk, lastAsk = ob.Asks[0], ob.Asks[len(ob.Asks)-1]
+	}
+	if len(ob.Bids) > 0 {
+		firstBid, lastBid = ob.Bids[0], ob.Bids[len(ob.Bids)-1]
+	}
 	if firstAsk.Price <= price && price <= lastAsk.Price {
 		// price is in asks interval
 		for k := range ob.Asks {
 			if ob.Asks[k].Price > price {
 				index := math.Max(0, float64(k-1))
-				return ob.Asks[int(index)].Price, nil
+				return ob.Asks[int(index)].AccumVolume, nil
 			}
 		}
-		return lastAsk.Price, nil
+		return lastAsk.AccumVolume, nil
 	} else if lastBid.Price <= price && price <= firstBid.Price {
 		// price is in bids interval
 		for k := range ob.Bids {
 			if ob.Bids[k].Price < price {
 				index := math.Max(0, float64(k-1))
-				return ob.Bids[int(index)].Price, nil
+				return ob.Bids[int(index)].AccumVolume, nil
 			}
 		}
-		return lastBid.Price, nil
+		return lastBid.AccumVolume, nil
 	}
 	return 0, ez.New(op, ez.ENOTFOUND, "No depth for the selected price", nil)
 }
-- 
2.43.0


From 8593088285961061c358087156f92ad2d2f01508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:42:21 +0000
Subject: [PATCH 04/27] fix: calculate the overlap of fully overlapping and
 empty order books

When every row of a side was within the overlap, none of them was counted.
Books with an empty side made CalculateOverlap panic.
---
 market/orderbook.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/market/orderbook.go b/market/orderbook.go
index c5c2b86..0057969 100644
--- a/market/orderbook.go
+++ b/market/orderbook.go
@@ -305,7 +305,8 @@ func (ob *OrderBook) GetDepth(price float64) (float64, error) {
 
 func overlapCalculation(obA, obB OrderBook) (float64, error) {
 	var obAAccumVolume, obBAccumVolume float64
-	var obAIndex, obBIndex int
+	// Unless a row outside of the overlap is found, all rows are part of it
+	obAIndex, obBIndex := len(obA.Asks), len(obB.Bids)
 	for i := range obA.Asks {
 		if obA.Asks[i].Price > obB.Bids[0].Price {
 			obAIndex = i
@@ -346,13 +347,15 @@ func overlapCalculation(obA, obB OrderBook) (float64, error) {
 func CalculateOverlap(obA, obB OrderBook) (float64, error) {
 	op := "OrderBook.CalculateOverlap"
 	// First determine if overlap exists
-	if !(obA.Asks[0].Price < obB.Bids[0].Price || obA.Bids[0].Price > obB.Asks[0].Price) {
+	askOverlap := len(obA.Asks) > 0 && len(obB.Bids) > 0 && obA.Asks[0].Price < obB.Bids[0].Price
+	bidOverlap := len(obA.Bids) > 0 && len(obB.Asks) > 0 && obA.Bids[0].Price > obB.Asks[0].Price
+	if !(askOverlap || bidOverlap) {
 		return -1, ez.New(op, ez.ENOTFOUND, "No overlap", nil)
 	}
-	if obA.Asks[0].Price < obB.Bids[0].Price {
+	if askOverlap {
 		return overlapCalculation(obA, obB)
 	}
-	if obA.Bids[0].Price > obB.Asks[0].Price {
+	if bidOverlap {
 		return overlapCalculation(obB, obA)
 	}
 	return 0, nil
-- 
2.43.0


From 1d5e0600e8343c34293191c8cba837da95a42ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:42:21 +0000
Subject: [PATCH 05/27] fix: copy the rows an order book is created from

A book sorted the slices of its creator in place and later appended to them. A
book created from two parts of the same slice overwrote its own bids when an
ask was added.
---
 market/orderbook.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/market/orderbook.go b/market/orderbook.go
index 0057969..e385f6c 100644
--- a/market/orderbook.go
+++ b/market/orderbook.go
@@ -20,8 +20,8 @@ func NewOrderBook(asks, bids []OrderBookRow, maxDepth int) OrderBook {
 
 	ob := OrderBook{
 		Time:     time.Now().Unix(),
-		Asks:     asks,
-		Bids:     bids,
+		Asks:     copyRows(asks),
+		Bids:     copyRows(bids),
 		MaxDepth: maxDepth,
 	}
 
@@ -30,6 +30,15 @@ func NewOrderBook(asks, bids []OrderBookRow, maxDepth int) OrderBook {
 	return ob
 }
 
+// copyRows returns a copy of the rows, so that a book doesn't share them with its creator
+func copyRows(rows []OrderBookRow) []OrderBookRow {
+	if rows == nil {
+		return nil
+	}
+
+	return append([]OrderBookRow{}, rows...)
+}
+
 func (ob *OrderBook) sort() {
 	sort.SliceStable(ob.Asks, func(i, j int) bool {
 		return ob.Asks[i].Price < ob.Asks[j].Price
-- 
2.43.0


From e1e7ea3e0f21624646dba72246761341d66ae196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:42:45 +0000
Subject: [PATCH 06/27] fix: report trades that are larger than the position

Modify dropped the error for a trade larger than the position size, so the
trade was silently ignored.
---
 market/position.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/market/position.go b/market/position.go
index 1329f38..afd4999 100644
--- a/market/position.go
+++ b/market/position.go
@@ -130,13 +130,13 @@ func (p *Position) Modify(trade *Trade) error {
 	}
 
 	if p.Type == LongPosition && trade.Action == BuyAction {
-		p.add(trade)
+		return p.add(trade)
 	} else if p.Type == LongPosition && trade.Action == SellAction {
-		p.substract(trade)
+		return p.substract(trade)
 	} else if p.Type == ShortPosition && trade.Action == BuyAction {
-		p.substract(trade)
+		return p.substract(trade)
 	} else if p.Type == ShortPosition && trade.Action == SellAction {
-		p.add(trade)
+		return p.add(trade)
 	}
 
 	return nil
-- 
2.43.0


From 02ddaba1fd5d467f0958c433bbf684a8fa07ea0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:42:45 +0000
Subject: [PATCH 07/27] fix: reject trades on a closed position

A trade on a closed position changed its size, open price or realized profit
while it stayed closed.
---
 market/position.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/market/position.go b/market/position.go
index afd4999..bb79687 100644
--- a/market/position.go
+++ b/market/position.go
@@ -129,6 +129,10 @@ func (p *Position) Modify(trade *Trade) error {
 		return ez.New(op, ez.EINVALID, "A trade must have same pair as the position", nil)
 	}
 
+	if !p.Open {
+		return ez.New(op, ez.EINVALID, "A closed position can't be modified", nil)
+	}
+
 	if p.Type == LongPosition && trade.Action == BuyAction {
 		return p.add(trade)
 	} else if p.Type == LongPosition && trade.Action == SellAction {
-- 
2.43.0


From 874b47e6ab72ebcebc2c37779bcecbd535b521c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:42:45 +0000
Subject: [PATCH 08/27] fix: close a position when only a rounding residue is
 left

Buying 0.8, selling 0.7 and then 0.1 left the position open with a size of
1e-16 and a meaningless open price.
---
 market/position.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/market/position.go b/market/position.go
index bb79687..fc66b7e 100644
--- a/market/position.go
+++ b/market/position.go
@@ -164,6 +164,11 @@ func (p *Position) substract(trade *Trade) error {
 
 	totalQuantity := p.Quantity - float64(trade.Quantity)
 
+	// What is left after a full close can be a tiny rounding residue
+	if totalQuantity < p.Quantity*1e-9 && totalQuantity > 0 {
+		totalQuantity = 0
+	}
+
 	if totalQuantity < 0 && totalQuantity < -0.0001 {
 		return ez.New(op, ez.EINVALID, "Trade volume is larger than the position size, this would not only close the position but open a new opossite one", nil)
 	} else if totalQuantity <= 0 {
-- 
2.43.0


From a495d221f5c09d53e8e4c72c1e2837a8cc9d8b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:42:46 +0000
Subject: [PATCH 09/27] fix: keep the trades of copied positions apart

Positions are handled by value, but a copy shared the spare capacity of its
trade list with the original: modifying both overwrote each other's trades.
---
 market/position.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/market/position.go b/market/position.go
index fc66b7e..007ab50 100644
--- a/market/position.go
+++ b/market/position.go
@@ -153,7 +153,7 @@ func (p *Position) add(trade *Trade) error {
 
 	p.OpenPrice = (p.OpenPrice * p.Quantity / totalQuantity) + (trade.Price * trade.Quantity / totalQuantity)
 	p.Quantity = totalQuantity
-	p.Trades = append(p.Trades, trade.ID)
+	p.Trades = append(p.Trades[:len(p.Trades):len(p.Trades)], trade.ID)
 
 	return nil
 }
@@ -189,7 +189,7 @@ func (p *Position) substract(trade *Trade) error {
 		p.Quantity = totalQuantity
 	}
 
-	p.Trades = append(p.Trades, trade.ID)
+	p.Trades = append(p.Trades[:len(p.Trades):len(p.Trades)], trade.ID)
 
 	return nil
 }
-- 
2.43.0


From cc52ea70e3a2fbfc655f20f4318167d39143b8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:42:46 +0000
Subject: [PATCH 10/27] fix: size close position orders with the current price

A close position order is executed at the current price, but its total and
quantity were calculated from the price field, which is usually zero.
---
 market/order_request.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/market/order_request.go b/market/order_request.go
index 54a8060..ec94323 100644
--- a/market/order_request.go
+++ b/market/order_request.go
@@ -75,8 +75,8 @@ func (o *OrderRequest) CalculateFields(currentPrice float64) (*OrderRequest, err
 
 	copy := *o
 
-	// MarketOrder
-	if o.Type == MarketOrder {
+	// Orders that are executed at whatever the current price is
+	if o.Type == MarketOrder || o.Type == ClosePosition {
 		if o.Quantity != 0 {
 			copy.Total = o.Quantity * currentPrice
 		} else {
-- 
2.43.0


From d1b996150c6c90531a24c71169758d19b0348dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:42:46 +0000
Subject: [PATCH 11/27] fix: refuse to calculate an order quantity from a zero
 price

CalculateFields returned an order request with an infinite quantity.
---
 market/order_request.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/market/order_request.go b/market/order_request.go
index ec94323..1967725 100644
--- a/market/order_request.go
+++ b/market/order_request.go
@@ -2,6 +2,7 @@ package market
 
 import (
 	"fmt"
+	"math"
 
 	"github.com/vanclief/ez"
 )
@@ -90,6 +91,11 @@ func (o *OrderRequest) CalculateFields(currentPrice float64) (*OrderRequest, err
 		}
 	}
 
+	// The quantity can't be obtained from a total without a price
+	if math.IsInf(copy.Quantity, 0) || math.IsNaN(copy.Quantity) {
+		return nil, ez.New(op, ez.EINVALID, "Quantity can't be calculated with a price of zero", nil)
+	}
+
 	return &copy, nil
 
 }
-- 
2.43.0


From 4047161437f874b1c9f34982a13058a12a52ed58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:43:21 +0000
Subject: [PATCH 12/27] fix: return errors instead of panicking in
 ModifyInterval

No candles, an interval of zero, and candles less than a minute apart made
ModifyInterval panic.
---
 market/candle.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/market/candle.go b/market/candle.go
index 37c4d6c..1c8ce1d 100644
--- a/market/candle.go
+++ b/market/candle.go
@@ -37,10 +37,14 @@ func ModifyInterval(candles []Candle, minuteInterval int) ([]Candle, error) {
 	op := "market.ModifyInterval"
 
 	// If we only have a candle, return the candle, there is nothing to do
-	if len(candles) == 1 {
+	if len(candles) <= 1 {
 		return candles, nil
 	}
 
+	if minuteInterval <= 0 {
+		return nil, ez.New(op, ez.EINVALID, "The interval must be at least 1 minute", nil)
+	}
+
 	// Check that if we are requesting a minute interval that there is actually
 	// a minute interval between the candles
 	minuteCandleDelta := (candles[1].Time - candles[0].Time) / 60
@@ -48,7 +52,7 @@ func ModifyInterval(candles []Candle, minuteInterval int) ([]Candle, error) {
 		return nil, ez.New(op, ez.ECONFLICT, "No 1 minute interval exists", nil)
 	}
 
-	if int64(minuteInterval)%minuteCandleDelta != 0 {
+	if minuteCandleDelta == 0 || int64(minuteInterval)%minuteCandleDelta != 0 {
 		return nil, ez.New(op, ez.ECONFLICT, fmt.Sprintf(`The retrieved candles cannot be modified to the %d minutes timeframe, the delta between candles is %d minutes`, minuteInterval, minuteCandleDelta), nil)
 	}
 
-- 
2.43.0


From 2b14985d2d8328024712c5d45754881d6911989c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:43:22 +0000
Subject: [PATCH 13/27] fix: don't merge intervals when their first candle is
 missing

When the candle at the start of an interval was missing, ModifyInterval added
the rest of that interval to the candle of the previous one.
---
 market/candle.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/market/candle.go b/market/candle.go
index 1c8ce1d..b75c79a 100644
--- a/market/candle.go
+++ b/market/candle.go
@@ -65,7 +65,8 @@ func ModifyInterval(candles []Candle, minuteInterval int) ([]Candle, error) {
 	firstCandleIndex := start
 	pivot := candles[start].Time
 	for k, v := range candles[firstCandleIndex+1:] {
-		if int(math.Abs(float64((v.Time-pivot)/60)))%minuteInterval == 0 {
+		// Compare intervals, as the first candle of an interval could be missing
+		if intervalIndex(v.Time, pivot, minuteInterval) != intervalIndex(candles[start].Time, pivot, minuteInterval) {
 			compressedCandle, err := compressCandle(candles, start, k+firstCandleIndex+1)
 			if err != nil {
 				return nil, err
@@ -86,6 +87,11 @@ func ModifyInterval(candles []Candle, minuteInterval int) ([]Candle, error) {
 	return modifiedCandles, nil
 }
 
+// intervalIndex returns the number of the interval, counting from the pivot, that a timestamp is in
+func intervalIndex(timestamp, pivot int64, minuteInterval int) int {
+	return int(math.Abs(float64((timestamp-pivot)/60))) / minuteInterval
+}
+
 // GetMinInterval - Returns the minimun period interval in minutes from an array of
 // candles
 func GetMinInterval(candles []Candle) int {
-- 
2.43.0


From 17a0d64fd51aca95cb61e0c14edc2269d419d330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:43:22 +0000
Subject: [PATCH 14/27] fix: align resampled candles in UTC

The first candle was looked for in the time zone of the machine, so zones with
an offset of half an hour shifted hourly candles by 30 minutes.
---
 market/candle.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/market/candle.go b/market/candle.go
index b75c79a..1ea3867 100644
--- a/market/candle.go
+++ b/market/candle.go
@@ -128,7 +128,7 @@ func findFirstIndex(candles []Candle, minuteInterval int) (int, error) {
 			return -1, ez.New(op, ez.EINVALID, "Could not find the initial candle", nil)
 		}
 
-		currentMinute := time.Unix(candles[i].Time, 0).Minute()
+		currentMinute := time.Unix(candles[i].Time, 0).UTC().Minute()
 		if currentMinute%modMinutes == 0 || currentMinute == 0 {
 			break
 		}
-- 
2.43.0


From 7e152da474fda7d1518d82f75754dad38bf7ae2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:43:22 +0000
Subject: [PATCH 15/27] fix: return a zero minimum interval for less than two
 candles

GetMinInterval converted the largest float to an int, which overflows.
---
 market/candle.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/market/candle.go b/market/candle.go
index 1ea3867..3d27590 100644
--- a/market/candle.go
+++ b/market/candle.go
@@ -95,6 +95,10 @@ func intervalIndex(timestamp, pivot int64, minuteInterval int) int {
 // GetMinInterval - Returns the minimun period interval in minutes from an array of
 // candles
 func GetMinInterval(candles []Candle) int {
+	if len(candles) < 2 {
+		return 0
+	}
+
 	minDiff := math.MaxFloat64
 	for k := range candles {
 		if k == 0 {
-- 
2.43.0


From 61f0c3db5afd261cbb72455f0ce1e81204bc7640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:43:22 +0000
Subject: [PATCH 16/27] fix: load candles with 64 bit times

Candles after 2038, or with times in milliseconds, could be saved but not
loaded.
---
 market/candle_load.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/market/candle_load.go b/market/candle_load.go
index 445740a..9f574ad 100644
--- a/market/candle_load.go
+++ b/market/candle_load.go
@@ -48,7 +48,7 @@ func LoadCandlesFromFile(filepath string) ([]Candle, error) {
 		lineArr := strings.Split(line, " ")
 
 		// Convert from string to datatypes
-		time, err := strconv.ParseInt(lineArr[0], 10, 32)
+		time, err := strconv.ParseInt(lineArr[0], 10, 64)
 		if err != nil {
 			return nil, ez.Wrap(op, err)
 		}
-- 
2.43.0


From 924dee32cc4009eabaa7c2b627e6c7504b571136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:43:22 +0000
Subject: [PATCH 17/27] fix: return an error for malformed lines in a candle
 file

Blank and incomplete lines made LoadCandlesFromFile panic, and a line cut off
inside its last number was loaded with a wrong volume.
---
 market/candle_load.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/market/candle_load.go b/market/candle_load.go
index 9f574ad..6e7b69b 100644
--- a/market/candle_load.go
+++ b/market/candle_load.go
@@ -43,9 +43,16 @@ func LoadCandlesFromFile(filepath string) ([]Candle, error) {
 	for scanner.Scan() {
 		text := scanner.Text()
 
+		if len(text) < 2 || text[0] != '{' || text[len(text)-1] != '}' {
+			return nil, ez.New(op, ez.EINVALID, "Line is not a candle", nil)
+		}
+
 		// Parse each line
 		line := text[1 : len(text)-1]
 		lineArr := strings.Split(line, " ")
+		if len(lineArr) != 6 {
+			return nil, ez.New(op, ez.EINVALID, "Line doesn't have the fields of a candle", nil)
+		}
 
 		// Convert from string to datatypes
 		time, err := strconv.ParseInt(lineArr[0], 10, 64)
-- 
2.43.0


From 6b7bda377f325c1de09e2557ca8d87ab79a6671d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:43:22 +0000
Subject: [PATCH 18/27] fix: report read errors and close the file in
 LoadCandlesFromFile

---
 market/candle_load.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/market/candle_load.go b/market/candle_load.go
index 6e7b69b..e20ca0a 100644
--- a/market/candle_load.go
+++ b/market/candle_load.go
@@ -39,6 +39,8 @@ func LoadCandlesFromFile(filepath string) ([]Candle, error) {
 		return nil, ez.Wrap(op, err)
 	}
 
+	defer f.Close()
+
 	scanner := bufio.NewScanner(f)
 	for scanner.Scan() {
 		text := scanner.Text()
@@ -97,5 +99,9 @@ func LoadCandlesFromFile(filepath string) ([]Candle, error) {
 		candles = append(candles, candle)
 	}
 
+	if err := scanner.Err(); err != nil {
+		return nil, ez.Wrap(op, err)
+	}
+
 	return candles, nil
 }
-- 
2.43.0


From 0defd37b6921fe0e1e4dc2258f3eab38ad22f865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:43:23 +0000
Subject: [PATCH 19/27] fix: report write errors in SaveCandlesToFile

A full disk left an incomplete file without an error.
---
 market/candle_load.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/market/candle_load.go b/market/candle_load.go
index e20ca0a..a120ba0 100644
--- a/market/candle_load.go
+++ b/market/candle_load.go
@@ -22,7 +22,14 @@ func SaveCandlesToFile(candles *[]Candle, filepath string) error {
 	candleList := *candles
 
 	for _, candle := range candleList {
-		fmt.Fprintln(f, candle) // print values to f, one per line
+		_, err := fmt.Fprintln(f, candle) // print values to f, one per line
+		if err != nil {
+			return ez.Wrap(op, err)
+		}
+	}
+
+	if err := f.Close(); err != nil {
+		return ez.Wrap(op, err)
 	}
 
 	return nil
-- 
2.43.0


From 12abdce0ccfd6b6521692fc07a2ce76c6f094f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:43:45 +0000
Subject: [PATCH 20/27] fix: include every candle in the exponential moving
 average

The first value was the plain average of the candles before it, so the close of
that candle was left out of the whole series.
---
 indicators/ma.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/indicators/ma.go b/indicators/ma.go
index 9ebfe0c..0a0cb27 100644
--- a/indicators/ma.go
+++ b/indicators/ma.go
@@ -63,7 +63,8 @@ func ExponentialMovingAverage(candles []market.Candle, period int) ([]float64, e
 		}
 
 		if len(emaArray) == 0 {
-			emaArray = append(emaArray, average(candles[:period]))
+			ema := (candles[i].Close * p) + (average(candles[:period]) * (1 - p))
+			emaArray = append(emaArray, ema)
 		} else {
 			ema := (candles[i].Close * p) + (emaArray[len(emaArray)-1] * (1 - p))
 			emaArray = append(emaArray, ema)
-- 
2.43.0


From a5464fd62d4119d2f70cf1df81b47b27e208ca12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:43:45 +0000
Subject: [PATCH 21/27] fix: don't read past the candles in RSI

The last value was calculated with whatever was stored behind the end of the
slice, or panicked when there was nothing. Periods that are not positive or not
smaller than the number of candles panicked as well.
---
 indicators/rsi.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/indicators/rsi.go b/indicators/rsi.go
index cd4cb13..1c822f8 100644
--- a/indicators/rsi.go
+++ b/indicators/rsi.go
@@ -27,6 +27,10 @@ func RSI(candles []market.Candle, period int) ([]float32, error) {
 		return nil, ez.New(op, ez.EINVALID, "Candle array missing", nil)
 	} else if len(candles) < 14 {
 		return nil, ez.New(op, ez.EINVALID, "Cannot calculate RSI with less than 14 candles", nil)
+	} else if period <= 0 {
+		return nil, ez.New(op, ez.EINVALID, "Period can't be less than 1", nil)
+	} else if len(candles) <= period {
+		return nil, ez.New(op, ez.EINVALID, "RSI needs more candles than the period", nil)
 	}
 
 	var rsiArray []float32
@@ -35,7 +39,7 @@ func RSI(candles []market.Candle, period int) ([]float32, error) {
 	j := period - 1
 
 	for {
-		if j == len(candles) {
+		if j+1 == len(candles) {
 			break
 		}
 
-- 
2.43.0


From ca5db1e9ac90f426f2df4035a38e9e5b4dc4e736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:43:45 +0000
Subject: [PATCH 22/27] fix: return a neutral RSI when the price doesn't change

A window without price changes gave NaN.
---
 indicators/rsi.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/indicators/rsi.go b/indicators/rsi.go
index 1c822f8..5453c5c 100644
--- a/indicators/rsi.go
+++ b/indicators/rsi.go
@@ -15,6 +15,11 @@ func calculateRSI(candles []market.Candle) float32 {
 			avgDownward += candles[i-1].Close - candles[i].Close
 		}
 	}
+	// Without price changes there is neither upward nor downward strength
+	if avgUpward == 0 && avgDownward == 0 {
+		return 50
+	}
+
 	rs := avgUpward / avgDownward
 	//fmt.Println("info:", avgUpward/14, avgDownward/14, rs)
 	return float32(100 - 100/(1+rs))
-- 
2.43.0


From 0fdd97cc4de507eda7a0b7bf0f93aea9c39b6054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:43:46 +0000
Subject: [PATCH 23/27] fix: only report fractals that are confirmed

A candle followed by equal highs or lows up to the end of the series was
reported as a fractal without two lower or higher candles after it, and
disappeared again when the next candle broke it.
---
 indicators/williams_fractals.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/indicators/williams_fractals.go b/indicators/williams_fractals.go
index 48a5fd7..e3f61a1 100644
--- a/indicators/williams_fractals.go
+++ b/indicators/williams_fractals.go
@@ -113,5 +113,9 @@ func findFractal(candles []market.Candle, start int, fType FractalType) (foundFr
 
 	}
 
+	if rightCandleCount < 2 {
+		return foundFractal, ez.New(op, ez.EINVALID, "No fractal, as it doesn't have two confirming candles yet", nil)
+	}
+
 	return foundFractal, nil
 }
-- 
2.43.0


From 79944af783c80e232c35ffa969e5dfab03927506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:43:46 +0000
Subject: [PATCH 24/27] fix: don't panic when printing short ids and missing
 assets

Position.String panicked for ids shorter than 8 characters and Balance.String
for balances without an asset.
---
 market/balances.go | 8 +++++++-
 market/position.go | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/market/balances.go b/market/balances.go
index d455028..1d0fc5a 100644
--- a/market/balances.go
+++ b/market/balances.go
@@ -31,5 +31,11 @@ type Balance struct {
 }
 
 func (b *Balance) String() string {
-	return fmt.Sprintf("Asset: %s, Amount: %f\n", b.Asset.String(), b.Amount)
+
+	var assetStr string
+	if b.Asset != nil {
+		assetStr = b.Asset.String()
+	}
+
+	return fmt.Sprintf("Asset: %s, Amount: %f\n", assetStr, b.Amount)
 }
diff --git a/market/position.go b/market/position.go
index 007ab50..88642bf 100644
--- a/market/position.go
+++ b/market/position.go
@@ -97,8 +97,14 @@ func (p *Position) Update(i interface{}) error {
 }
 
 func (p *Position) String() string {
+
+	shortID := p.ID
+	if len(shortID) > 8 {
+		shortID = shortID[0:8]
+	}
+
 	return fmt.Sprintf("ID: %s Type: %s Pair: %s Open: %t OpenPrice: %.2f ClosePrice: %.2f Quantity: %.4f Profit: %.2f OpenTime: %s CloseTime: %s # Trades: %d\n",
-		p.ID[0:8],
+		shortID,
 		p.Type,
 		p.Pair.String(),
 		p.Open,
-- 
2.43.0


From 49e18718e4fc15fd225a64302034e2bdd1c04092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:43:46 +0000
Subject: [PATCH 25/27] fix: map DYDXETH to DYDX/ETH

It was mapped to OOKI/ETH.
---
 market/pair_mappings.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/market/pair_mappings.go b/market/pair_mappings.go
index ca0bb4e..7efdb00 100644
--- a/market/pair_mappings.go
+++ b/market/pair_mappings.go
@@ -1886,7 +1886,7 @@ var PairMappings = map[string]Pair{
 	"GLMRBUSD":      {Base: Asset{Symbol: "GLMR"}, Quote: Asset{Symbol: "BUSD"}},
 	"GLMRUSDT":      {Base: Asset{Symbol: "GLMR"}, Quote: Asset{Symbol: "USDT"}},
 	"ATOMBIDR":      {Base: Asset{Symbol: "ATOM"}, Quote: Asset{Symbol: "BIDR"}},
-	"DYDXETH":       {Base: Asset{Symbol: "OOKI"}, Quote: Asset{Symbol: "ETH"}},
+	"DYDXETH":       {Base: Asset{Symbol: "DYDX"}, Quote: Asset{Symbol: "ETH"}},
 	"ROSEETH":       {Base: Asset{Symbol: "ROSE"}, Quote: Asset{Symbol: "ETH"}},
 	"UMABUSD":       {Base: Asset{Symbol: "UMA"}, Quote: Asset{Symbol: "BUSD"}},
 	"UNIETH":        {Base: Asset{Symbol: "UNI"}, Quote: Asset{Symbol: "ETH"}},
-- 
2.43.0


From 22f48bb81f726105e4ebb16a58fd79abc986d04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:12:02 +0000
Subject: [PATCH 26/27] fix: updating a model from a nil model pointer panics

---
 market/order.go        | 2 +-
 market/position.go     | 2 +-
 market/trade.go        | 2 +-
 strategy/annotation.go | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/market/order.go b/market/order.go
index 85d4b54..143d785 100644
--- a/market/order.go
+++ b/market/order.go
@@ -85,7 +85,7 @@ func (o *Order) Update(i interface{}) error {
 	const op = "Order.Update"
 
 	order, ok := i.(*Order)
-	if !ok {
+	if !ok || order == nil {
 		return ez.New(op, ez.EINVALID, "Provided interface is not of type Order", nil)
 	}
 
diff --git a/market/position.go b/market/position.go
index 88642bf..1d5d98e 100644
--- a/market/position.go
+++ b/market/position.go
@@ -87,7 +87,7 @@ func (p *Position) Update(i interface{}) error {
 	const op = "Position.Update"
 
 	position, ok := i.(*Position)
-	if !ok {
+	if !ok || position == nil {
 		return ez.New(op, ez.EINVALID, "Provided interface is not of type Position", nil)
 	}
 
diff --git a/market/trade.go b/market/trade.go
index b841dfc..7ab8dd0 100644
--- a/market/trade.go
+++ b/market/trade.go
@@ -63,7 +63,7 @@ func (t *Trade) Update(i interface{}) error {
 	const op = "Trade.Update"
 
 	trade, ok := i.(*Trade)
-	if !ok {
+	if !ok || trade == nil {
 		return ez.New(op, ez.EINVALID, "Provided interface is not of type Trade", nil)
 	}
 
diff --git a/strategy/annotation.go b/strategy/annotation.go
index 75a7f77..33bed90 100644
--- a/strategy/annotation.go
+++ b/strategy/annotation.go
@@ -57,7 +57,7 @@ func (a *Annotation) Update(i interface{}) error {
 	const op = "Annotation.Update"
 
 	model, ok := i.(*Annotation)
-	if !ok {
+	if !ok || model == nil {
 		return ez.New(op, ez.EINVALID, "Provided interface is not of type Annotation", nil)
 	}
 
-- 
2.43.0


From 873296042c76bb578f816709c646c7d9080c739e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:12:16 +0000
Subject: [PATCH 27/27] fix: find the high and low of candles with extreme
 prices

Prices beyond 1e308 were replaced by that number when candles were resampled.
---
 market/candle.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/market/candle.go b/market/candle.go
index 3d27590..062d7c2 100644
--- a/market/candle.go
+++ b/market/candle.go
@@ -157,8 +157,8 @@ func compressCandle(candles []Candle, start, end int) (Candle, error) {
 		Volume: 0,
 	}
 
-	high := -1e308
-	low := 1e308
+	high := math.Inf(-1)
+	low := math.Inf(1)
 	accum := 0.0
 	for _, v := range candles[start:end] {
 		if v.Low < low {
-- 
2.43.0

