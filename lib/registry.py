import check_single, check_truth, check_tree
CHECKS = {p: check_single.run for p in ("C01", "C02", "C03", "C06", "C07", "C08", "C09", "C10", "C11")}
CHECKS.update({p: check_truth.run for p in ("C04", "C05")})
CHECKS.update({p: check_tree.run for p in ("C23", "C24", "C25")})
CHECKS.update({p: check_tree.run_data for p in ("C19", "C20", "C21", "C22", "C30", "C36")})
TECHNIQUE, NOTES, REASONS = {}, {}, {}
import check_prices
CHECKS.update({"C16": check_prices.run16, "C17": check_prices.run17, "C18": check_prices.run18})
import check_market
CHECKS["C12"] = check_market.run12
import check_store
CHECKS["C14"] = check_store.run
import check_trade
CHECKS["C15"] = check_trade.run
import check_treetruth
CHECKS["C26"] = check_treetruth.run
import check_history
CHECKS["C13"] = check_history.run
import check_end
CHECKS["C27"] = check_end.run
import check_refuse
CHECKS["C28"] = check_refuse.run
import check_experiment
CHECKS["C29"] = check_experiment.run
import check_stock
CHECKS.update({"C31": check_stock.run31, "C32": check_stock.run32})
import check_parts
CHECKS.update({"C33": check_parts.run33, "C34": check_parts.run34})
CHECKS["C35"] = check_parts.run35
import check_units
CHECKS["C37"] = check_units.run
