From b3a4cc90e05293a66edfc1df9a0f29ba2091e224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:26 +0000
Subject: [PATCH 01/10] fix: report write errors of elinor-convert at the end
 of the output

The BufWriter was dropped without flushing it, which swallows any error of
the last write, so a truncated or empty output was reported as a success.
---
 elinor-cli/src/bin/convert.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/elinor-cli/src/bin/convert.rs b/elinor-cli/src/bin/convert.rs
index 0ba7231..ea005ca 100644
--- a/elinor-cli/src/bin/convert.rs
+++ b/elinor-cli/src/bin/convert.rs
@@ -66,5 +66,6 @@ fn main() -> Result<()> {
             }
         }
     }
+    writer.flush()?;
     Ok(())
 }
-- 
2.43.0


From b6686d9394a71c9ee2f1ddf10f419bd2f2be40a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:26 +0000
Subject: [PATCH 02/10] fix: reject non-finite scores in elinor-convert

They were written as null, losing the score and making a file that
elinor-evaluate cannot read.
---
 elinor-cli/src/bin/convert.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/elinor-cli/src/bin/convert.rs b/elinor-cli/src/bin/convert.rs
index ea005ca..6fa179f 100644
--- a/elinor-cli/src/bin/convert.rs
+++ b/elinor-cli/src/bin/convert.rs
@@ -61,6 +61,15 @@ fn main() -> Result<()> {
             let pred_rels = trec::parse_pred_rels_in_trec(lines)?;
             let pred_records = pred_rels.into_records();
             for record in pred_records {
+                // JSON cannot represent these scores; they would be written as null.
+                if !record.score.is_finite() {
+                    return Err(anyhow::anyhow!(
+                        "Non-finite score {} for query_id={}, doc_id={}",
+                        record.score,
+                        record.query_id,
+                        record.doc_id
+                    ));
+                }
                 serde_json::to_writer(&mut writer, &record)?;
                 writer.write_all(b"\n")?;
             }
-- 
2.43.0


From 86d64ddd5e5acfd4fd9fc3878310a2c664906b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:26 +0000
Subject: [PATCH 03/10] fix: F1 is zero, not NaN, for a query without relevant
 documents

---
 src/metrics/f1.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/metrics/f1.rs b/src/metrics/f1.rs
index 73d29de..2c1fd90 100644
--- a/src/metrics/f1.rs
+++ b/src/metrics/f1.rs
@@ -21,7 +21,11 @@ where
     }
     let hits = compute_hits(trues, sorted_preds, k, rel_lvl);
     let precision = hits / k as f64;
-    let recall = hits / trues.values().filter(|&&rel| rel >= rel_lvl).count() as f64;
+    let n_rels = trues.values().filter(|&&rel| rel >= rel_lvl).count() as f64;
+    if n_rels == 0.0 {
+        return 0.0;
+    }
+    let recall = hits / n_rels;
     if precision + recall == 0.0 {
         0.0
     } else {
-- 
2.43.0


From 5c4f81ab472c4fb3140a76731b592dcd4e490ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:26 +0000
Subject: [PATCH 04/10] fix: Bpref is not NaN for a query without judged
 non-relevant documents

Follows trec_eval, where each retrieved relevant document that no non-relevant
document precedes contributes 1.
---
 src/metrics/bpref.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/metrics/bpref.rs b/src/metrics/bpref.rs
index a8143bc..2ab5848 100644
--- a/src/metrics/bpref.rs
+++ b/src/metrics/bpref.rs
@@ -22,7 +22,13 @@ where
     for pred in sorted_preds {
         if let Some(&rel) = trues.get(&pred.doc_id) {
             if rel >= rel_lvl {
-                bpref += 1.0 - n_non_rels_so_far.min(n_rels) / n_non_rels.min(n_rels);
+                // Without preceding non-relevant documents there is nothing to penalize
+                // (and there may be no judged non-relevant document to divide by).
+                if n_non_rels_so_far == 0.0 {
+                    bpref += 1.0;
+                } else {
+                    bpref += 1.0 - n_non_rels_so_far.min(n_rels) / n_non_rels.min(n_rels);
+                }
             } else {
                 n_non_rels_so_far += 1.0;
             }
-- 
2.43.0


From a930f2f7e88ac7b14c0aae5ca739980b567d9da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:58 +0000
Subject: [PATCH 05/10] fix: elinor-compare refuses files with different or
 duplicate topics

Topics missing from the first file were counted in the means but silently
left out of the tests, topics missing from another file ended in a panic, and
duplicate topics multiplied rows.
---
 elinor-cli/src/bin/compare.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/elinor-cli/src/bin/compare.rs b/elinor-cli/src/bin/compare.rs
index e58f489..cbfbb88 100644
--- a/elinor-cli/src/bin/compare.rs
+++ b/elinor-cli/src/bin/compare.rs
@@ -93,6 +93,30 @@ fn main() -> Result<()> {
     }
     let topic_header = topic_headers[0].as_str();
 
+    // The systems are compared topic by topic, so that the topics must be unique and the same.
+    let mut topics_in_first = None;
+    for (input_csv, df) in args.input_csvs.iter().zip(&dfs) {
+        let column = df.get_columns()[0].cast(&DataType::String)?;
+        let topics = column
+            .str()?
+            .into_iter()
+            .map(|topic| topic.map(str::to_string))
+            .collect::<std::collections::HashSet<_>>();
+        if topics.len() != column.len() {
+            return Err(anyhow::anyhow!(
+                "The topics must be unique, but some are duplicated in {}",
+                input_csv.display()
+            ));
+        }
+        if topics_in_first.get_or_insert_with(|| topics.clone()) != &topics {
+            return Err(anyhow::anyhow!(
+                "The topics must be the same in all the files, but differ between {} and {}",
+                args.input_csvs[0].display(),
+                input_csv.display()
+            ));
+        }
+    }
+
     println!("# Basic statistics");
     {
         let columns = vec![
-- 
2.43.0


From b323a29c4f17bd9744e7393c5e12f5ca91c87d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:09 +0000
Subject: [PATCH 06/10] fix: elinor-compare takes topics as identifiers, not as
 numbers

Topics such as 001, 01 and 1 were parsed as the same integer, so that the
scores of different topics were paired (or a file was refused).
---
 elinor-cli/src/bin/compare.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/elinor-cli/src/bin/compare.rs b/elinor-cli/src/bin/compare.rs
index cbfbb88..817a257 100644
--- a/elinor-cli/src/bin/compare.rs
+++ b/elinor-cli/src/bin/compare.rs
@@ -70,6 +70,8 @@ fn main() -> Result<()> {
     for input_csv in &args.input_csvs {
         let df = CsvReadOptions::default()
             .with_parse_options(csv_parse_options.clone())
+            // Topics are identifiers even if they look like numbers.
+            .with_dtype_overwrite(Some(Arc::new(vec![DataType::String])))
             .try_into_reader_with_file_path(Some(input_csv.clone()))?
             .finish()?;
         dfs.push(df);
@@ -96,7 +98,7 @@ fn main() -> Result<()> {
     // The systems are compared topic by topic, so that the topics must be unique and the same.
     let mut topics_in_first = None;
     for (input_csv, df) in args.input_csvs.iter().zip(&dfs) {
-        let column = df.get_columns()[0].cast(&DataType::String)?;
+        let column = &df.get_columns()[0];
         let topics = column
             .str()?
             .into_iter()
-- 
2.43.0


From 6a18713cfe51b30f35f6e2431b1746d98f66d220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:42 +0000
Subject: [PATCH 07/10] fix: compare fails when a table cannot be printed

printstd() ignores write errors, so that compare in the pretty mode exited
successfully with a truncated report, e.g., on a full disk.
---
 elinor-cli/src/bin/compare.rs | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/elinor-cli/src/bin/compare.rs b/elinor-cli/src/bin/compare.rs
index 817a257..67fead1 100644
--- a/elinor-cli/src/bin/compare.rs
+++ b/elinor-cli/src/bin/compare.rs
@@ -140,7 +140,7 @@ fn main() -> Result<()> {
             ),
         ];
         let df = DataFrame::new(columns)?;
-        print_dataframe(&df, args.print_mode);
+        print_dataframe(&df, args.print_mode)?;
     }
 
     // If there is only one input CSV file, just print the means.
@@ -154,7 +154,7 @@ fn main() -> Result<()> {
                 Series::new("Score".into(), values),
             ];
             let df = DataFrame::new(columns)?;
-            print_dataframe(&df, args.print_mode);
+            print_dataframe(&df, args.print_mode)?;
         }
         return Ok(());
     }
@@ -177,7 +177,7 @@ fn main() -> Result<()> {
             ),
         ];
         let df = DataFrame::new(columns)?;
-        print_dataframe(&df, args.print_mode);
+        print_dataframe(&df, args.print_mode)?;
     }
 
     if dfs.len() == 2 {
@@ -264,7 +264,7 @@ fn compare_two_systems(
             columns.push(Series::new(format!("System_{}", i + 1).into(), values));
         }
         let df = DataFrame::new(columns)?;
-        print_dataframe(&df, print_mode);
+        print_dataframe(&df, print_mode)?;
     }
 
     let mut df_metrics = vec![];
@@ -342,7 +342,7 @@ fn compare_two_systems(
             ),
         ];
         let df = DataFrame::new(columns)?;
-        print_dataframe(&df, print_mode);
+        print_dataframe(&df, print_mode)?;
     }
 
     println!("\n# Two-sided paired Bootstrap test (n_resamples = {n_resamples})");
@@ -369,7 +369,7 @@ fn compare_two_systems(
             ),
         ];
         let df = DataFrame::new(columns)?;
-        print_dataframe(&df, print_mode);
+        print_dataframe(&df, print_mode)?;
     }
 
     println!("\n# Fisher's randomized test (n_iters = {n_iters})");
@@ -399,7 +399,7 @@ fn compare_two_systems(
             ),
         ];
         let df = DataFrame::new(columns)?;
-        print_dataframe(&df, print_mode);
+        print_dataframe(&df, print_mode)?;
     }
 
     Ok(())
@@ -485,7 +485,7 @@ fn compare_multiple_systems(
             Series::new("95% MOE".into(), vec![moe95; dfs.len()]),
         ];
         let df = DataFrame::new(columns)?;
-        print_dataframe(&df, print_mode);
+        print_dataframe(&df, print_mode)?;
 
         println!("## Two-way ANOVA without replication");
         let columns = vec![
@@ -535,7 +535,7 @@ fn compare_multiple_systems(
             ),
         ];
         let df = DataFrame::new(columns)?;
-        print_dataframe(&df, print_mode);
+        print_dataframe(&df, print_mode)?;
 
         println!("## Effect sizes for Tukey HSD test");
         let hsd_stat = TukeyHsdTest::from_tupled_samples(tupled_scores.iter(), dfs.len())?;
@@ -553,7 +553,7 @@ fn compare_multiple_systems(
             columns.push(Series::new(format!("System_{}", i).into(), values));
         }
         let df = DataFrame::new(columns)?;
-        print_dataframe(&df, print_mode);
+        print_dataframe(&df, print_mode)?;
 
         println!("## p-values for randomized Tukey HSD test (n_iters = {n_iters})");
         let rthsd_stat = rthsd_tester.test(tupled_scores)?;
@@ -571,21 +571,23 @@ fn compare_multiple_systems(
             columns.push(Series::new(format!("System_{}", i).into(), values));
         }
         let df = DataFrame::new(columns)?;
-        print_dataframe(&df, print_mode);
+        print_dataframe(&df, print_mode)?;
     }
 
     Ok(())
 }
 
-fn print_dataframe(df: &DataFrame, print_mode: PrintMode) {
+fn print_dataframe(df: &DataFrame, print_mode: PrintMode) -> Result<()> {
     match print_mode {
         PrintMode::Pretty => {
-            df_to_prettytable(df).printstd();
+            // Not printstd(), which ignores any failure to print.
+            df_to_prettytable(df).print_tty(false)?;
         }
         PrintMode::Raw => {
             print_df_in_tsv(df);
         }
     }
+    Ok(())
 }
 
 fn df_to_prettytable(df: &DataFrame) -> prettytable::Table {
-- 
2.43.0


From ee148abeff8ea9f7160a5d97d79f7528c6c24309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:08 +0000
Subject: [PATCH 08/10] fix: Burges' gains do not wrap around or overflow for
 large relevance scores

---
 src/metrics/ndcg.rs | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/metrics/ndcg.rs b/src/metrics/ndcg.rs
index a39b754..43f6f47 100644
--- a/src/metrics/ndcg.rs
+++ b/src/metrics/ndcg.rs
@@ -10,10 +10,11 @@ pub enum DcgWeighting {
     Burges,
 }
 
-fn weighted_score(rel: TrueScore, weighting: DcgWeighting) -> f64 {
+/// Computes the gain of a relevance score, divided by 2^scale in Burges' weighting.
+fn weighted_score(rel: TrueScore, weighting: DcgWeighting, scale: TrueScore) -> f64 {
     match weighting {
         DcgWeighting::Jarvelin => rel as f64,
-        DcgWeighting::Burges => 2.0_f64.powi(rel as i32) - 1.0,
+        DcgWeighting::Burges => (rel as f64 - scale as f64).exp2() - (-(scale as f64)).exp2(),
     }
 }
 
@@ -24,6 +25,19 @@ pub fn compute_dcg<K>(
     k: usize,
     weighting: DcgWeighting,
 ) -> f64
+where
+    K: Eq + Ord,
+{
+    compute_scaled_dcg(trues, sorted_preds, k, weighting, 0)
+}
+
+fn compute_scaled_dcg<K>(
+    trues: &BTreeMap<K, TrueScore>,
+    sorted_preds: &[Relevance<K, PredScore>],
+    k: usize,
+    weighting: DcgWeighting,
+    scale: TrueScore,
+) -> f64
 where
     K: Eq + Ord,
 {
@@ -31,7 +45,7 @@ where
     let mut dcg = 0.0;
     for (i, pred) in sorted_preds.iter().take(k).enumerate() {
         if let Some(&rel) = trues.get(&pred.doc_id) {
-            dcg += weighted_score(rel, weighting) / (i as f64 + 2.0).log2();
+            dcg += weighted_score(rel, weighting, scale) / (i as f64 + 2.0).log2();
         }
     }
     dcg
@@ -48,6 +62,8 @@ pub fn compute_ndcg<K>(
 where
     K: Eq + Ord + Clone,
 {
+    // Relative to the highest gain, so that the gains of large scores do not overflow.
+    let scale = sorted_trues.first().map_or(0, |r| r.score);
     let sorted_trues = sorted_trues
         .iter()
         .map(|r| Relevance {
@@ -55,8 +71,8 @@ where
             score: PredScore::from(r.score),
         })
         .collect::<Vec<_>>();
-    let dcg = compute_dcg(trues, sorted_preds, k, weighting);
-    let idcg = compute_dcg(trues, &sorted_trues, k, weighting);
+    let dcg = compute_scaled_dcg(trues, sorted_preds, k, weighting, scale);
+    let idcg = compute_scaled_dcg(trues, &sorted_trues, k, weighting, scale);
     if idcg == 0.0 {
         1.0
     } else {
-- 
2.43.0


From 4aab030b23bbbf291acc529967f8d022eb03c65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:48 +0000
Subject: [PATCH 09/10] fix: compare takes scores that are written as integers

A column without any fraction, or without one in its first hundred rows, was
read as integers, on which the tests and the reports failed.
---
 elinor-cli/src/bin/compare.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/elinor-cli/src/bin/compare.rs b/elinor-cli/src/bin/compare.rs
index 67fead1..a7f27fe 100644
--- a/elinor-cli/src/bin/compare.rs
+++ b/elinor-cli/src/bin/compare.rs
@@ -68,12 +68,19 @@ fn main() -> Result<()> {
 
     let mut dfs = vec![];
     for input_csv in &args.input_csvs {
-        let df = CsvReadOptions::default()
+        let mut df = CsvReadOptions::default()
             .with_parse_options(csv_parse_options.clone())
+            .with_infer_schema_length(None)
             // Topics are identifiers even if they look like numbers.
             .with_dtype_overwrite(Some(Arc::new(vec![DataType::String])))
             .try_into_reader_with_file_path(Some(input_csv.clone()))?
             .finish()?;
+        // Scores are floats even if all of a column are written as integers.
+        for i in 1..df.width() {
+            if df.get_columns()[i].dtype().is_integer() {
+                df.try_apply_at_idx(i, |scores| scores.cast(&DataType::Float64))?;
+            }
+        }
         dfs.push(df);
     }
 
-- 
2.43.0


From 5b58d84017410d3067078d5676c7fc2d65e90b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:51 +0000
Subject: [PATCH 10/10] fix: compare reads topics with line breaks the same
 with any number of threads

---
 elinor-cli/src/bin/compare.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/elinor-cli/src/bin/compare.rs b/elinor-cli/src/bin/compare.rs
index a7f27fe..6477754 100644
--- a/elinor-cli/src/bin/compare.rs
+++ b/elinor-cli/src/bin/compare.rs
@@ -73,6 +73,8 @@ fn main() -> Result<()> {
             .with_infer_schema_length(None)
             // Topics are identifiers even if they look like numbers.
             .with_dtype_overwrite(Some(Arc::new(vec![DataType::String])))
+            // Topics can have line breaks, at which a file must not be split among threads.
+            .with_n_threads(Some(1))
             .try_into_reader_with_file_path(Some(input_csv.clone()))?
             .finish()?;
         // Scores are floats even if all of a column are written as integers.
-- 
2.43.0

