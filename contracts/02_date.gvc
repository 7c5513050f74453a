package root

def leap(y) = y % 4 == 0 && (y % 100 != 0 || y % 400 == 0)
def month_len(y, m) = ite(m == 2, ite(leap(y), 29, 28), ite(m == 4 || m == 6 || m == 9 || m == 11, 30, 31))
def date_valid(y, m, d) = (y == 0 ==> m == 0 && d == 0) && (m == 0 ==> d == 0) && m <= 12 \
   && (d == 0 || d <= month_len(y, m))

fn isLeapYear(year) (r)
  props C03
  ensures r <==> leap(year)

fn Date.monthDays(self) (r)
  props C03
  requires self.Month >= 1 && self.Month <= 12
  ensures r == month_len(self.Year, self.Month)

fn Date.IsValid(self) (r)
  props C03
  ensures r <==> date_valid(self.Year, self.Month, self.Day)

fn Date.IsComplete(self) (r)
  props C03
  ensures r <==> self.Year != 0 && self.Month != 0 && self.Day != 0

fn Date.HasDay(self) (r)
  props C03
  ensures r <==> self.Day != 0

fn Date.HasMonth(self) (r)
  props C03
  ensures r <==> self.Month != 0

fn Date.HasYear(self) (r)
  props C03
  ensures r <==> self.Year != 0

fn Date.MonthName(self) (r)
  props C03
  ensures self.Month == 0 || self.Month > 12 ==> r == "????"
  ensures self.Month == 1 ==> r == "January"
  ensures self.Month == 2 ==> r == "February"
  ensures self.Month == 3 ==> r == "March"
  ensures self.Month == 4 ==> r == "April"
  ensures self.Month == 5 ==> r == "May"
  ensures self.Month == 6 ==> r == "June"
  ensures self.Month == 7 ==> r == "July"
  ensures self.Month == 8 ==> r == "August"
  ensures self.Month == 9 ==> r == "September"
  ensures self.Month == 10 ==> r == "October"
  ensures self.Month == 11 ==> r == "November"
  ensures self.Month == 12 ==> r == "December"

fn Date.appendTo(self, data) (r)
  props C03
  modifies elems(data, len(data), cap(data))
  ensures grown(r, data, 4)
  ensures le16(r, len(data)) == self.Year && r[len(data) + 2] == self.Month && r[len(data) + 3] == self.Day
