# Prelude of demonstrations that run SQL: distributed against single-node, over csv files in the scratch directory.
SQL='''#![allow(unused)]
use datafusion::prelude::*;
use datafusion::physical_plan::{displayable, collect};
use datafusion::logical_expr::Partitioning;
use datafusion_distributed::*;
use datafusion_distributed::test_utils::in_memory_channel_resolver::*;
use futures::TryStreamExt;
use std::sync::Arc;
fn rows(v: &[datafusion::arrow::array::RecordBatch]) -> Vec<String> { let mut r: Vec<String> = datafusion::arrow::util::pretty::pretty_format_batches(v).unwrap().to_string().lines().map(|s| s.to_string()).collect(); r.sort(); r }
fn files() {
    for (n, k, r) in [("a", 2, 10), ("b", 4, 200)] {
        let d = format!("./{n}"); std::fs::create_dir_all(&d).unwrap();
        for f in 0..k { std::fs::write(format!("{d}/{f}.csv"), std::iter::once("v,w,x".to_string()).chain((0..r).map(|i| format!("{},{},{}", i*k+f, i%7, i%3))).collect::<Vec<_>>().join("\\n")).unwrap(); }
    }
}
async fn tables(c: &SessionContext) { for n in ["a","b"] { c.register_csv(n, &format!("./{n}"), CsvReadOptions::new()).await.unwrap(); } }
/// Whether the distributed query gives the rows of the single-node one.
async fn run(sql: &str, tp: usize, tasks: usize, conf: impl Fn(&mut SessionConfig)) -> bool {
    let ctx = start_in_memory_context(tasks, DefaultSessionBuilder).await;
    let mut b = datafusion::execution::SessionStateBuilder::new_from_existing(ctx.state());
    { let cfg = b.config().get_or_insert_default(); *cfg = cfg.clone().with_target_partitions(tp); cfg.set_distributed_file_scan_config_bytes_per_partition(10).unwrap(); conf(cfg); }
    let ctx = SessionContext::from(b.build());
    files(); tables(&ctx).await;
    let plain = SessionContext::new_with_config(SessionConfig::new().with_target_partitions(tp)); tables(&plain).await;
    println!("### {sql} tp={tp}");
    let p = ctx.sql(sql).await.unwrap().create_physical_plan().await.unwrap();
    if std::env::var("SHOW").is_ok() { println!("{}", display_plan_ascii(p.as_ref(), false).lines().map(|l| l.chars().take(170).collect::<String>()).collect::<Vec<_>>().join("\\n")); }
    let e = rows(&plain.sql(sql).await.unwrap().collect().await.unwrap());
    match collect(p, ctx.task_ctx()).await { Err(e) => { println!("ERR {e}"); false } Ok(r) => { let r = rows(&r); if r != e { println!("DIFF\\n{}\\n--\\n{}", r[..r.len().min(40)].join("\\n"), e[..e.len().min(40)].join("\\n")); } r == e } }
}
#[tokio::main]
async fn main() {
    let mut ok = true;
    @@
    std::process::exit(!ok as i32);
}
'''
def sql(*lines): return SQL.replace("@@","\n    ".join(lines))
